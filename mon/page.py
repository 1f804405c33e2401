"""Reads a rendered report page back into tables: what a reader of the page is shown, not how it is laid out in the source."""
import re
from html.parser import HTMLParser

WS = re.compile(r"\s+")


def clean(s):
    return WS.sub(" ", s.replace("\xa0", " ")).strip()


class Cell:
    def __init__(self, cls):
        self.cls, self.raw, self.links, self.anchors = cls, "", [], []

    @property
    def text(self):
        return clean(self.raw)


class Row:
    def __init__(self, cls):
        self.cls, self.cells = cls, []

    def __repr__(self):
        return f"<{self.cls or ''}|" + "|".join(c.text for c in self.cells) + ">"


class Page(HTMLParser):
    """sections: title -> rows; anchors: ids and names in the page; links: in-page targets with the section they are in"""

    def __init__(self, html):
        super().__init__(convert_charrefs=True)
        self.sections, self.anchors, self.links, self.order = {}, [], [], []
        self.title = self.row = self.cell = self.head = self.a = None
        self.pre = None
        self.stray = ""
        self.odd, self.broken = set(), set()
        self.feed(html)
        self.close()

    def handle_starttag(self, tag, attrs):
        at = dict(attrs)
        if tag.startswith("trclass="):
            # a row whose class is written without a blank
            self.broken.add(tag)
            tag, at = "tr", {**at, "class": tag[8:].strip('"')}
        for k in ("id", "name"):
            if at.get(k) and tag != "meta":
                self.anchors.append(at[k])
        if tag in ("h2", "h3"):
            self.row = self.cell = None
            self.head = ""
        elif tag == "tr":
            self.cell = None
            self.row = Row(at.get("class"))
            self.sections.setdefault(self.title, []).append(self.row)
        elif tag in ("td", "th"):
            if self.row is None:
                self.row = Row(None)
                self.sections.setdefault(self.title, []).append(self.row)
            self.cell = Cell(at.get("class"))
            self.row.cells.append(self.cell)
        elif tag == "a":
            if "href" in at:
                self.links.append((self.title, at["href"]))
                if self.cell is not None:
                    self.cell.links.append(at["href"])
            if self.cell is not None and (at.get("id") or at.get("name")):
                self.cell.anchors.append(at.get("id") or at.get("name"))
        elif tag in ("pre", "textarea"):
            self.pre = ""
            self.inpre = True
        elif tag == "br":
            if self.cell is not None:
                self.cell.raw += "\n"
        elif tag not in ("html", "head", "title", "meta", "style", "body", "div", "table", "p", "form", "textarea", "input"):
            self.odd.add(tag)

    inpre = False

    def handle_endtag(self, tag):
        if tag in ("h2", "h3") and self.head is not None:
            t = clean(self.head)
            self.order.append(t)
            if tag == "h2":
                self.title = t
                self.sections.setdefault(t, [])
            self.head = None
        elif tag in ("td", "th"):
            self.cell = None
        elif tag == "tr":
            self.row = self.cell = None
        elif tag in ("pre", "textarea"):
            self.inpre = False

    def handle_data(self, d):
        if self.head is not None:
            self.head += d
        elif self.cell is not None:
            self.cell.raw += d
        elif self.inpre:
            self.pre += d
        elif self.row is not None or self.title not in (None, "Filter"):
            self.stray += d
