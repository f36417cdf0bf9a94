"""writes DESIGN.md: the prose below, and per property what the harnesses, known_findings.txt and seeded/ say"""
import ast, glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

HEAD = open(os.path.join(R, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(R, 'tools', 'design_tail.md')).read()

ORACLE = {
 'C01': 'the comparison of the specification written directly over the exact rational value of the input and the limits (mathematical integers; floats on a binary grid so that the sum is exact), and identity of the accepted value',
 'C02': 'the number of code points and membership in the list, written over the symbolic text',
 'C03': 'the list itself: same length, same items in the same order; limits by length; uniqueness by a pairwise comparison of the items',
 'C04': 'splitting the sent text at the separator (or collecting the pairs of one name for multi) gives the list of plain forms again',
 'C05': 'a table of presence: each given key is in the result iff it is declared or allowed, each declared default is there iff absent, the conversion fails iff a required one is missing, a key is not allowed or a nested value breaks its limit',
 'C06': 'the conjunction of the limits of all members and the enclosing schema, written over the value; fields converted by the member declaring them',
 'C07': 'the calendar arithmetic of the standard (leap years, days per month, offset range) over the symbolic digits; the instant (day number, second, microsecond, offset) is compared, not a formatted text',
 'C08': 'base64 decoding by the standard library model of the sent text equals the content bit by bit; the 128 bits of a uuid compared as bytes',
 'C09': 'for every declared parameter the list of places (query, header, path, form, body, files) at which its marker value is found has exactly one member, the declared one; rejected calls build nothing',
 'C10': 'unquoting the path segment gives the value again, and the number of "/", "?" and "#" of the path is that of the template',
 'C11': 'membership in the effective lists, first member by default',
 'C12': 'an independent decoder of form and multipart bodies (harness/mime.py, RFC 7578 and 2046 rules on quoting and boundaries) gives the fields, file names, media types and contents again',
 'C13': 'a second, fresh App and request executing only the last action gives the same request; deep copies of all arguments and of the description before and after are equal',
 'C14': 'the URL split into its parts: only the named parts differ',
 'C15': 'for each scheme the exact header or query pair (base64 of UTF-8/Latin-1 text for basic); all others unchanged; the requirement chosen is the first one fully satisfied',
 'C16': 'multiset of (lower-case name, value) of both sources, split at commas where joining was asked for',
 'C17': 'the definition chosen by a decision table over status and declared codes; value by the constructor of the body',
 'C18': 'a list of pairs keyed by lower-cased names as abstract mapping, run beside the real one through the whole history',
 'C19': 'split(compose(x)) = x and vice versa; the object found is the one (identity) the document holds',
 'C20': 'RFC 3986 section 5.2 written independently over the list of segments',
 'C21': 'every definition carries a distinct symbolic number; the one found at the end of a reference is that of the target; a log of the getter contains no URL twice',
 'C22': 'the relation between (scope, name, separator) and the declared operations and models enumerated from the description',
 'C23': 'inheritance tables of the specification over presence (absent, empty, given) on each level',
 'C24': 'reachability over the symbolic edge relation: a cycle is reported iff some node reaches itself',
 'C25': 'the same description with the target written in place of the reference, both loaded and called with the same arguments: same outcome, same request or response',
 'C26': 'field-by-field equality of the raw description and its dump with the defaults table of the specification; load(dump) = dump',
 'C27': 'a table of the 1.2 fields and their 2.0 places, written over the symbolic 1.2 description',
 'C28': 'the value is accepted by an independent acceptance test of the definition; the random source is symbolic, so "every outcome" is quantified',
 'C29': 'a table of registrations keyed by lower-case media type without parameters',
 'C30': 'equality of the two symbolic field tables; the named path is looked up in both and differs',
 'C31': 'a symbolic file system (which names exist) and a recording open(): the only file opened is the one the rules name',
 'C32': 'per object kind, the number of violated rules counted from its symbolic fields',
 'C33': 'json.loads of the corresponding JSON text, compared field by field after loading both',
 'C34': 'the request recorded by the stand-in for the HTTP library is decoded by the decoders of C12 and compared with the arguments; for responses the values the stand-in returned',
 'C35': 'registered and declared format are compared as symbols; the log of the registered function holds one entry (definition, value, direction) iff they are equal, none otherwise',
 'C36': 'tables of web pages and files with logs of what is opened and closed; which of given getter, default getter, URL or file is asked follows a decision table',
 'C37': 'the outcome stated once for the description, independent of the order of its members',
 'C39': 'the same comparison done on the plain data, None counting as missing; the data itself for items, attributes and copies',
    'C40': 'the same observations of an App loaded from the same documents and prepared at once',
 'C38': 'deep copies of documents, dumps and results taken before; a behaviour stated once for each App alone',
}


def lit(n):
    if isinstance(n, ast.Constant):
        return str(n.value)
    return ast.unparse(n)


def obligations(p):
    src = open(os.path.join(R, 'harness', p.lower() + '.py')).read()
    out = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'obligation':
                    k = dict((x.arg, x.value) for x in d.keywords)
                    out.append((n.lineno, d.args[0].value, lit(k['bounds']) if 'bounds' in k else '', lit(k['stubs']) if 'stubs' in k else '', 'thorough' in k))
    stubs = [lit(x.value) for x in ast.parse(src).body if isinstance(x, ast.Assign) and getattr(x.targets[0], 'id', '') == 'STUBS']
    return [(n, b, stubs[0] if s == 'STUBS' and stubs else s, t) for _, n, b, s, t in sorted(out)]


def main():
    findings = open(os.path.join(R, 'known_findings.txt')).read().splitlines()
    out = [HEAD.rstrip(), '']
    for line in open(os.path.join(R, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '', 'Anchored in %s. Oracle: %s.' % (', '.join(p['anchors']['files']), ORACLE[i]),
                'Why tests cannot settle it: %s' % p['why_tests_cant'], '']
        st = []
        for n, b, s, t in obligations(i):
            out.append('- `%s`: %s%s' % (n, b or 'no inputs besides the cases', ' (deeper in the thorough tier)' if t else ''))
            if s and s not in st:
                st.append(s)
        out.append('')
        for s in st:
            out.append('Stand-ins: %s.' % s.rstrip('.'))
        for f in findings:
            if f.startswith(('known: property=%s ' % i, 'fixed: property=%s ' % i)):
                out.append('- ' + f.replace('property=%s ' % i, ''))
        ms = []
        for d in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
            m = json.load(open(d))
            if m['property'] == i:
                ms.append('%s (needs %s)' % (os.path.basename(os.path.dirname(d)), m['needs']))
        if ms:
            out.append('- Planted bugs reported by this check: ' + '; '.join(ms) + '.')
        out.append('')
    out.append(TAIL)
    open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
