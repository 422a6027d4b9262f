'''lace.lines.Lines, as far as it holds what it is given.'''


class Lines(object):
    def __init__(self, v=None, e=None, vc=None, ec=None, filename=None):
        self.v = v
        self.e = e
        self.vc = vc
