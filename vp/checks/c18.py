"""C18 delimiter/join formats write and split element-wise."""
import os
import own, run as runner, check, emit

LEVEL = 'other'
TECHNIQUE = 'Kani contracts on the real crate; bounded native replay'
RULE = ('contracts on parse-display-with: Join::write emits item, delimiter, item, ... and stops at the first error; Join::parse splits at every occurrence and converts each piece; '
        'fmt/fmt_display/fmt_from_str delegate.  Natively every failing point of the writer, every failing element and every failing piece of generated collections and texts is tried')


def run(ck):
    S = os.path.join(emit.SUPPORT, '')
    own.native(ck, 'c18', open(S + 'c18.rs').read(), 'The documented formats of parse-display-with are not usable.')
    check.verus(ck, ['join'])
    ck.bounded.append('Kani: collections of at most 4 elements; Join::parse on one-piece texts (the substring searcher of core is out of reach for longer ones)')
    res = own.kani(ck, open(S + 'c18_kani.rs').read(), '\n'.join([
        'parse-display = { path = "%s/parse-display", default-features = false }' % runner.REPO,
        'parse-display-with = { path = "%s/parse-display-with", default-features = false }' % runner.REPO]))
    for n, r in res.items():
        if r['status'] == 'failed' and not ck.viols:
            ck.violation('c18:' + n, 'The verifier rejects %s: %s\nThe native search found no failing input.' % (n, r['why']), found=False)
