"""Development aid: rewrites the table of planted bugs in DESIGN.md out of seeded/*/meta.json."""
import glob, json, os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# checks other than the one of the property which were seen to report the bug as well
ALSO = {}


def main():
    rows = ["| bug | breaks | caught by |", "|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        n = os.path.basename(d)
        rows.append("| %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "/"), " ".join([m["property"]] + ALSO.get(n, []))))
    p = os.path.join(VERIF, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"<!-- seeds -->.*?<!-- end -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
    open(p, "w").write(s)


main()
