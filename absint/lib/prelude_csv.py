QUOTE_MINIMAL = 0
QUOTE_ALL = 1
QUOTE_NONNUMERIC = 2
QUOTE_NONE = 3


class Error(Exception):
    pass


class _Writer:
    def __init__(self, f, delimiter, lineterminator, quoting, quotechar):
        self.f = f
        self.delimiter = delimiter
        self.lineterminator = lineterminator
        self.quoting = quoting
        self.quotechar = quotechar

    def _one(self, x):
        if x is None:
            x = ''
        s = x if isinstance(x, str) else str(x)
        if self.quoting == QUOTE_MINIMAL:
            q = self.delimiter in s or self.quotechar in s or '\n' in s or '\r' in s
        elif self.quoting == QUOTE_ALL:
            q = True
        elif self.quoting == QUOTE_NONNUMERIC:
            q = isinstance(x, str)
        else:
            q = False
        if q:
            return self.quotechar + s.replace(self.quotechar, self.quotechar * 2) + self.quotechar
        return s

    def writerow(self, row):
        return self.f.write(self.delimiter.join([self._one(x) for x in row]) + self.lineterminator)

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def writer(f, dialect='excel', delimiter=',', lineterminator='\r\n', quoting=QUOTE_MINIMAL, quotechar='"'):
    if dialect == 'excel-tab':
        delimiter = '\t'
    elif dialect == 'unix':
        lineterminator, quoting = '\n', QUOTE_ALL
    elif dialect != 'excel':
        raise __gap__("csv dialect")
    return _Writer(f, delimiter, lineterminator, quoting, quotechar)


def reader(f, dialect='excel', delimiter=',', quotechar='"', skipinitialspace=False, quoting=QUOTE_MINIMAL):
    if dialect == 'excel-tab':
        delimiter = '\t'
    elif dialect != 'excel':
        raise __gap__("csv dialect")
    if quoting != QUOTE_MINIMAL:
        raise __gap__("csv quoting")
    out = []
    for line in f:
        line = line.rstrip('\r\n')
        if quotechar in line:
            raise __gap__("quoted csv")
        if line == '':
            out.append([])
            continue
        cells = line.split(delimiter)
        if skipinitialspace:
            cells = [c.lstrip(' ') for c in cells]
        out.append(cells)
    return iter(out)


class DictWriter:
    def __init__(self, f, fieldnames, restval='', **kw):
        self.fieldnames = fieldnames
        self.restval = restval
        self.w = writer(f, **kw)

    def writeheader(self):
        self.w.writerow(self.fieldnames)

    def writerow(self, d):
        self.w.writerow([d.get(k, self.restval) for k in self.fieldnames])

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def DictReader(f, fieldnames=None, **kw):
    rows = [r for r in reader(f, **kw) if r]
    if fieldnames is None:
        fieldnames = rows[0]
        rows = rows[1:]
    return iter([dict(zip(fieldnames, r)) for r in rows])
