"""Rewrites the generated tables of DESIGN.md (not applicable, planted bugs). Development only; no check reads this."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props


def put(s, tag, body):
    return re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (tag, tag), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (tag, body, tag), s, flags=re.S)


def main():
    fn = os.path.join(HERE, 'DESIGN.md')
    s = open(fn).read()
    s = put(s, 'NA', '| id | property | reason |\n|----|----------|--------|\n' + '\n'.join('| %s | %s | %s |' % (n['id'], n['title'], n['reason']) for n in props.NOT_APPLICABLE))
    rows = []
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
    s = put(s, 'BUGS', '%d planted, each confirmed (demo, existing tests), each reported by the check of its property:\n\n' % len(rows) +
            '| id | property (= the check that reports it) | what it breaks | what it needs |\n|----|----|----|----|\n' + '\n'.join(rows))
    open(fn, 'w').write(s)


if __name__ == '__main__':
    main()
