"""Writes the table of planted bugs at the end of DESIGN.md from their meta.json files."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeds -->\n"


def main():
    rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
    for folder in ("seeded", "seeded_own_lines"):
        for name in sorted(os.listdir(os.path.join(HERE, folder))):
            meta = json.load(open(os.path.join(HERE, folder, name, "meta.json")))
            needs = " ".join(str(meta["needs"]).split()).replace("|", "\\|")
            rows.append("| %s%s | %s | %s |" % (name, "" if folder == "seeded" else " (own lines)", meta["property"], needs))
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path, encoding="utf-8").read()
    head = text[: text.index(MARK) + len(MARK)]
    open(path, "w", encoding="utf-8").write(head + "\n" + "\n".join(rows) + "\n")


if __name__ == "__main__":
    main()
