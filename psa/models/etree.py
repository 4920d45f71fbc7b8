"""Model of xml.etree.ElementTree: an element is a tag, attributes, text and children."""


class Element:
    def __init__(self, tag, attrib=None, **extra):
        self.tag = tag
        self.attrib = dict(attrib) if attrib is not None else {}
        self.attrib.update(extra)
        self.text = None
        self.tail = None
        self._children = []

    def append(self, subelement):
        self._children.append(subelement)

    def extend(self, elements):
        for e in elements:
            self._children.append(e)

    def insert(self, index, subelement):
        self._children.insert(index, subelement)

    def remove(self, subelement):
        self._children.remove(subelement)

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, value):
        self.attrib[key] = value

    def items(self):
        return self.attrib.items()

    def keys(self):
        return self.attrib.keys()

    def clear(self):
        self.attrib.clear()
        self.text = self.tail = None
        self._children.clear()

    def find(self, path, namespaces=None):
        for e in __xpath__(self, path):
            return e
        return None

    def findall(self, path, namespaces=None):
        return __xpath__(self, path)

    def iterfind(self, path, namespaces=None):
        return __xpath__(self, path)

    def findtext(self, path, default=None, namespaces=None):
        for e in __xpath__(self, path):
            return e.text or ""
        return default

    def iter(self, tag=None):
        return __xiter__(self, tag)

    def __len__(self):
        return len(self._children)

    def __iter__(self):
        return iter(self._children)

    def __getitem__(self, index):
        return self._children[index]

    def __bool__(self):
        return len(self._children) != 0


def SubElement(parent, tag, attrib=None, **extra):
    element = Element(tag, attrib, **extra)
    parent.append(element)
    return element
