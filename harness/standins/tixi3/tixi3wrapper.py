"""
Stand-in for TiXI 3, which is not available here: the documented behaviour of
the functions for reading and changing an XML document, on ElementTree.
Paths are absolute, with positions in brackets ('/cpacs/a/b[2]/c').
"""
import re
import xml.etree.ElementTree as ET


class Tixi3Exception(Exception):
    def __init__(self, code, **kw):
        super().__init__(f'code {code} {kw}')
        self.code = code


class Tixi3:
    version = '3'

    def __init__(self):
        self._root = None
        self._handle = None

    # ----- documents
    def open(self, name, recursive=False):
        try:
            self._root = ET.parse(name).getroot()
        except (OSError, ET.ParseError):
            raise Tixi3Exception('OPEN_FAILED', file=name)

    openDocument = open

    def openString(self, text):
        self._root = ET.fromstring(text)

    def create(self, name):
        self._root = ET.Element(name)

    def close(self):
        self._root = None

    closeDocument = close

    def save(self, name, recursive=False, remove=False):
        self._need()
        with open(name, 'w') as fp:
            fp.write('<?xml version="1.0" encoding="utf-8"?>\n' + ET.tostring(self._root, encoding='unicode') + '\n')

    saveDocument = save

    def exportDocumentAsString(self):
        self._need()
        return ET.tostring(self._root, encoding='unicode')

    def checkDocumentHandle(self):
        return self._root is not None

    # ----- paths
    def _need(self):
        if self._root is None:
            raise Tixi3Exception('INVALID_HANDLE')

    def _all(self, path):
        self._need()
        steps = [s.strip() for s in path.strip().split('/')]
        if steps[:1] != [''] or len(steps) < 2:
            raise Tixi3Exception('INVALID_XPATH', xpath=path)
        here = [ET.Element('')]
        here[0].append(self._root)
        for s in steps[1:]:
            m = re.fullmatch(r'([A-Za-z_][\w.-]*|\*)\s*(?:\[\s*(\d+)\s*\]|\[\s*@uID\s*=\s*["\']([^"\']*)["\']\s*\])?', s)
            if not m:
                raise Tixi3Exception('INVALID_XPATH', xpath=path)
            new = []
            for e in here:
                c = [x for x in e if m[1] in ('*', x.tag)]
                if m[2]:
                    c = c[int(m[2]) - 1:int(m[2])]
                if m[3] is not None:
                    c = [x for x in c if x.get('uID') == m[3]]
                new += c
            here = new
        return here

    def _one(self, path):
        e = self._all(path)
        if not e:
            raise Tixi3Exception('ELEMENT_NOT_FOUND', xpath=path)
        if len(e) > 1:
            raise Tixi3Exception('ELEMENT_PATH_NOT_UNIQUE', xpath=path)
        return e[0]

    # ----- elements
    def checkElement(self, path):
        return len(self._all(path)) > 0

    def getNumberOfChilds(self, path):
        return len(self._one(path))

    def getNamedChildrenCount(self, path, name):
        return len([e for e in self._one(path) if e.tag == name])

    def getChildNodeName(self, path, index):
        try:
            return self._one(path)[index - 1].tag
        except IndexError:
            raise Tixi3Exception('INDEX_OUT_OF_RANGE')

    def xPathEvaluateNodeNumber(self, path):
        n = len(self._all(path))
        if not n:
            raise Tixi3Exception('FAILED', xpath=path)
        return n

    def xPathExpressionGetXPath(self, path, index):
        return self._path(self._all(path)[index - 1])

    def getTextElement(self, path):
        return (self._one(path).text or '').strip()

    def getDoubleElement(self, path):
        try:
            return float(self.getTextElement(path))
        except ValueError:
            raise Tixi3Exception('NOT_DOUBLE', xpath=path)

    def getIntegerElement(self, path):
        try:
            return int(self.getTextElement(path))
        except ValueError:
            raise Tixi3Exception('NOT_INTEGER', xpath=path)

    def getBooleanElement(self, path):
        return self.getTextElement(path) in ('true', '1')

    def updateTextElement(self, path, text):
        self._one(path).text = text

    def updateDoubleElement(self, path, value, format='%g'):
        self._one(path).text = format % value

    def addTextElement(self, parent, name, text):
        e = ET.SubElement(self._one(parent), name)
        e.text = text

    def addDoubleElement(self, parent, name, value, format='%g'):
        self.addTextElement(parent, name, format % value)

    def createElement(self, parent, name):
        ET.SubElement(self._one(parent), name)

    def removeElement(self, path):
        e = self._one(path)
        for p in self._root.iter():
            if e in list(p):
                p.remove(e)

    # ----- attributes
    def checkAttribute(self, path, name):
        return self._one(path).get(name) is not None

    def getTextAttribute(self, path, name):
        v = self._one(path).get(name)
        if v is None:
            raise Tixi3Exception('ATTRIBUTE_NOT_FOUND', xpath=path)
        return v

    def addTextAttribute(self, path, name, value):
        self._one(path).set(name, value)

    # ----- vectors
    def getVectorSize(self, path):
        t = self.getTextElement(path).strip(';')
        return len(t.split(';')) if t else 0

    getArraySize = getVectorSize

    def getFloatVector(self, path, n):
        try:
            v = tuple(float(x) for x in self.getTextElement(path).strip(';').split(';'))
        except ValueError:
            raise Tixi3Exception('NOT_DOUBLE', xpath=path)
        if n > len(v):
            raise Tixi3Exception('FAILED', xpath=path)
        return v[:n]

    def addFloatVector(self, parent, name, vector, n, format='%g'):
        e = ET.SubElement(self._one(parent), name)
        e.set('mapType', 'vector')
        e.text = ';'.join(format % vector[i] for i in range(n))

    def updateFloatVector(self, path, vector, n, format='%g'):
        e = self._one(path)
        e.set('mapType', 'vector')
        e.text = ';'.join(format % vector[i] for i in range(n))

    # ----- uIDs
    def _path(self, target):
        def down(e, path):
            if e is target:
                return path
            count = {}
            for c in e:
                count[c.tag] = count.get(c.tag, 0) + 1
                r = down(c, f'{path}/{c.tag}[{count[c.tag]}]')
                if r:
                    return r
            return None
        return down(self._root, '/' + self._root.tag)

    def _uid(self, uid):
        self._need()
        e = [x for x in self._root.iter() if x.get('uID') == uid]
        if not e:
            raise Tixi3Exception('UID_NOT_FOUND', uid=uid)
        return e

    def uIDCheckExists(self, uid):
        self._need()
        return any(x.get('uID') == uid for x in self._root.iter())

    def uIDCheckDuplicates(self):
        u = [x.get('uID') for x in self._root.iter() if x.get('uID')]
        if len(u) != len(set(u)):
            raise Tixi3Exception('UID_NOT_UNIQUE')

    def uIDGetXPath(self, uid):
        return self._path(self._uid(uid)[0])
