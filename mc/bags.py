"""Plain classes used to build object trees."""


class Bag(object):
    def __init__(self, **members):
        self.__dict__.update(members)


class Other(Bag):
    pass


class WithDefaults(object):
    def __init__(self, number=3, text='preset', flag=True, items=None, ratio=0.5, when=None):
        self.number = number
        self.text = text
        self.flag = flag
        self.items = items
        self.ratio = ratio
        self.when = when
