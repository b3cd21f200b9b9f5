"""A stand-in for tkinter which keeps the canvas as data and delivers events from a queue"""
import sys
import types

ALIAS = {'<Key>': '<KeyPress>', '<1>': '<Button-1>', '<2>': '<Button-2>', '<3>': '<Button-3>', '<ButtonPress-1>': '<Button-1>',
         '<ButtonPress-2>': '<Button-2>', '<ButtonPress-3>': '<Button-3>', '<Control-ButtonPress-1>': '<Control-Button-1>'}


class Item:
    def __init__(self, kind, coords, opts):
        self.kind, self.coords, self.opts = kind, list(coords), dict(opts)

    def __repr__(self):
        return f'{self.kind}{tuple(self.coords)}{self.opts}'


def flat(a):
    out = []
    for x in a:
        if isinstance(x, (list, tuple)):
            out += flat(x)
        else:
            out.append(x)
    return out


class Canvas:
    """items in drawing order; ids count from 1 as in tk"""

    def __init__(self, root=None, **k):
        if root is not None and root.tk.no_canvas:
            raise root.tk.no_canvas('no canvas')
        self.root, self.size = root, (k.get('width'), k.get('height'))
        self.items, self.order, self.n = {}, [], 0
        self.shown = 0
        root.canvas = self

    def pack(self, *a, **k):
        pass

    def update(self):
        self.shown += 1

    update_idletasks = update

    def _new(self, kind, a, k):
        self.n += 1
        self.items[self.n] = Item(kind, flat(a), k)
        self.order.append(self.n)
        return self.n

    def create_polygon(self, *a, **k):
        return self._new('polygon', a, k)

    def create_arc(self, *a, **k):
        return self._new('arc', a, k)

    def create_line(self, *a, **k):
        return self._new('line', a, k)

    def create_text(self, *a, **k):
        return self._new('text', a, k)

    def create_image(self, *a, **k):
        return self._new('image', a, k)

    def coords(self, i, *new):
        if i not in self.items:
            return []
        if new:
            self.items[i].coords = flat(new)
            return []
        return list(self.items[i].coords)

    def move(self, i, dx, dy):
        if i in self.items:
            c = self.items[i].coords
            self.items[i].coords = [x + (dy if j % 2 else dx) for j, x in enumerate(c)]

    def moveto(self, i, x, y):
        c = self.items[i].coords
        self.move(i, x - c[0], y - c[1])

    def itemconfigure(self, i, **k):
        if i in self.items:
            self.items[i].opts.update(k)

    itemconfig = itemconfigure

    def itemcget(self, i, o):
        return self.items[i].opts.get(o)

    def delete(self, *ids):
        for i in ids:
            for j in list(self.order) if i == 'all' else [i]:
                if j in self.items:
                    del self.items[j]
                    self.order.remove(j)

    def tag_lower(self, i, below=None):
        self.order.remove(i)
        self.order.insert(self.order.index(below) if below in self.items else 0, i)

    def tag_raise(self, i, *a):
        self.order.remove(i)
        self.order.append(i)

    def postscript(self, **k):
        return f'page {k.get("x")} {k.get("y")} with {len(self.items)} items'


class Event:
    def __init__(self, pattern, keysym=None, x=None, y=None):
        self.pattern, self.keysym, self.x, self.y = pattern, keysym, x, y
        self.char, self.keycode = keysym, 0

    def __repr__(self):
        return f'{self.pattern}{self.keysym or ""}{(self.x, self.y) if self.x is not None else ""}'


class Tk:
    def __init__(self, *a, **k):
        self.tk = Fake.now
        self.tk.windows.append(self)
        self.bound, self.alive, self.canvas, self.titles, self.waits = {}, True, None, [], []
        self.closing = None
        self.running = False

    def protocol(self, name, fn):
        if name == 'WM_DELETE_WINDOW':
            self.closing = fn

    def title(self, t):
        self.titles.append(t)

    def resizable(self, *a):
        self.fixed = a

    def bind(self, pattern, fn, *a):
        self.bound[ALIAS.get(pattern, pattern)] = fn

    def destroy(self):
        self.alive = False

    def update_idletasks(self):
        pass

    update = update_idletasks

    def after(self, ms, fn=None, *a):
        self.waits.append(ms)

    def quit(self):
        self.running = False

    def _one(self):
        if self.tk.queue:
            e = self.tk.queue.pop(0)
            self.tk.delivered.append(e)
            if e.pattern == 'close':
                self.closing()
            elif e.pattern in self.bound:
                self.bound[e.pattern](e)
            return 1
        return 0

    def dooneevent(self, flags=0):
        assert self.alive, 'window is gone'
        return self._one()

    def mainloop(self, n=0):
        """runs until the wait is over; what has been queued is delivered meanwhile"""
        assert self.alive, 'window is gone'
        self.tk.tick()
        while self._one():
            pass


class Fake:
    """one tkinter; `later` are events which arrive during the next waits, one batch per wait"""
    now = None

    def __init__(self, S):
        import time
        Fake.now = self
        self.S = S
        self.windows, self.queue, self.delivered, self.later, self.slept = [], [], [], [], []
        self.no_canvas = False
        self.idle = 0
        m = types.ModuleType('tkinter')
        m.Tk, m.Canvas, m.NW = Tk, Canvas, 'nw'
        m.PhotoImage = lambda **k: ('photo', k.get('file'))
        m.TclError = RuntimeError
        m._tkinter = types.ModuleType('_tkinter')
        m._tkinter.DONT_WAIT = m.DONT_WAIT = 2
        m._tkinter.TclError = RuntimeError
        sys.modules['tkinter'] = m
        S.patch(time, 'sleep', lambda s: self.slept.append(s))

    def tick(self):
        if self.later:
            self.queue += self.later.pop(0)
        else:
            self.idle += 1
            if self.idle > 40:
                raise RuntimeError('waits for ever')

    @property
    def window(self):
        return self.windows[-1]

    @property
    def canvas(self):
        return self.windows[-1].canvas

    def items(self, kind=None):
        c = self.canvas
        return [c.items[i] for i in c.order if kind is None or c.items[i].kind == kind]
