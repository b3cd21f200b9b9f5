"""D44 drawing: shapes are placed, moved, coloured and removed exactly as asked"""
from props.board import truth
from props.screen import Fake

BOUNDS = {'quick': 'shapes of 3-5 points, circles, lines, texts at any real coordinates and sizes; 1-2 shapes and any of them moved, '
                   'recoloured or removed, one of them twice; angles of any turn; colours of all 256 levels; 12 shapes each changed in any way',
          'thorough': '3 shapes and a change, 2 and two changes, 1 and three changes'}
OUTSIDE = 'what tkinter makes of the canvas'
ASSUMPTIONS = ['tkinter is replaced by a stand-in keeping the canvas items as data (props/screen.py)']


def start(S, **k):
    fake = Fake(S)
    import graphicsUtils as u
    u.begin_graphics(**k)
    return fake, u


def shape(S, u, i):
    """one shape of any kind; its id, kind, points, options"""
    kind = S.choose(f'kind{i}', 5)
    x, y = S.real(f'x{i}'), S.real(f'y{i}')
    c1, c2 = '#112233', '#445566'
    if kind == 0:
        pts = [(x, y), (S.real(f'p{i}'), S.real(f'q{i}')), (x + 1, y - 2)]
        filled, fill = S.choose(f'filled{i}', 2), S.pick(f'fill{i}', [None, c2])
        o = u.polygon(pts, c1, fill, filled=filled, smoothed=S.choose(f'smooth{i}', 2), width=3)
        return o, 'polygon', [v for p in pts for v in p], {'outline': c1, 'fill': '' if not filled else fill or c1, 'width': 3}
    if kind == 1:
        r = S.real(f'r{i}', 0)
        filled = S.choose(f'filled{i}', 2)
        o = u.square((x, y), r, c1, filled)
        return o, 'polygon', [x - r, y - r, x + r, y - r, x + r, y + r, x - r, y + r], \
            {'outline': c1, 'fill': c1 if filled else '', 'smooth': 0}
    if kind == 2:
        r = S.real(f'r{i}', 0)
        fill = S.pick(f'fill{i}', [None, c2])
        o = u.circle((x, y), r, c1, fill, width=4, style=S.pick(f'style{i}', ['pieslice', 'arc']))
        return o, 'arc', [x - r - 1, y - r - 1, x + r, y + r], {'outline': c1, 'fill': fill or c1, 'start': 0, 'extent': 359, 'width': 4}
    if kind == 3:
        there = (S.real(f'p{i}'), S.real(f'q{i}'))
        o = u.line((x, y), there, c1, 5)
        return o, 'line', [x, y, *there], {'fill': c1, 'width': 5}
    o = u.text((x, y), c1, 'hello', 'Times', 17, 'bold', 'sw')
    return o, 'text', [x, y], {'fill': c1, 'text': 'hello', 'font': ('Times', '17', 'bold'), 'anchor': 'sw'}


def looks(S, fake, shapes, label):
    c = fake.canvas
    S.check([i for i in c.order if i in shapes] == [i for i in shapes if shapes[i]], label + '-and-nothing-else', lambda: (c.order, list(shapes)))
    for i, d in shapes.items():
        if d is None:
            S.check(i not in c.items, label + '-removed', lambda: i)
            continue
        kind, pts, opts = d
        it = c.items[i]
        S.check(it.kind == kind and len(it.coords) == len(pts), label, lambda: it)
        for a, b in zip(it.coords, pts):
            S.eq(a, b, label + '-at', lambda: (it, pts))
        S.check(all(it.opts.get(k) == v for k, v in opts.items()), label + '-style', lambda: (it, opts))


def background(S, fake, size):
    first = fake.items()[0]
    w, h = size[0] - 1, size[1] - 1
    S.check(first.kind == 'polygon' and first.opts['fill'] == '#102030' and first.opts['outline'] == '#102030', 'background-colour', lambda: first)
    for a, b in zip(first.coords, [0, 0, 0, h, w, h, w, 0]):
        S.eq(a, b, 'background-covers-the-window', lambda: first)


def shapes(S):
    """any shapes, and any changes to them one after the other: nothing else changes"""
    w, h = S.real('w', 1), S.real('h', 1)
    fake, u = start(S, width=w, height=h, color='#102030', title='t')
    S.check(fake.window.titles == ['t'] and truth(fake.canvas.size[0] == w) and truth(fake.canvas.size[1] == h), 'window-as-asked')
    background(S, fake, (w, h))
    all_ = {}
    n = S.choose('n', S.deep(2, 3))
    for i in range(1 + n):
        o, *d = shape(S, u, i)
        S.check(o not in all_, 'shapes-of-their-own')
        all_[o] = d
    looks(S, fake, all_, 'drawn')
    for j in range(1 + S.choose('m', S.deep(2, 3) - n)):
        o = S.pick(f'o{j}', sorted(all_))
        if all_[o] is None:
            continue
        kind, pts, opts = all_[o]
        what = S.choose(f'what{j}', 7)
        x, y = S.real(f'dx{j}'), S.real(f'dy{j}')
        if what in (0, 1):
            lift = S.flag(f'lift{j}')
            u.move_by(o, *((x, y) if what else ((x, y),)), **({'lift': True} if lift else {}))
            if lift:
                d = all_.pop(o)
                all_[o] = d
            pts = [v + (y if k % 2 else x) for k, v in enumerate(pts)]
        elif what in (2, 3):
            u.move_to(o, *((x, y) if what == 3 else ((x, y),)))
            pts = [v + (y - pts[1] if k % 2 else x - pts[0]) for k, v in enumerate(pts)]
        elif what == 4:
            u.changeColor(o, '#abcdef')
            opts = dict(opts, fill='#abcdef')
        elif what == 5:
            u.edit(o, ('width', 9), ('outline', '#010203'))
            opts = dict(opts, width=9, outline='#010203')
        else:
            u.remove_from_screen(o)
        all_[o] = None if what == 6 else [kind, pts, opts]
    looks(S, fake, all_, 'changed')
    background(S, fake, (w, h))
    if S.flag('clear'):
        u.clear_screen()
        S.check(len(fake.items()) == 1, 'cleared', lambda: fake.items())
        background(S, fake, (w, h))


def circles(S):
    """parts of circles: from the first angle on to the second, whatever the turns between"""
    fake, u = start(S)
    a, b = S.real('a', -360, 720), S.real('b', -360, 720)
    x, y, r = S.real('x'), S.real('y'), S.real('r', 0)
    moved = S.flag('moved')
    if moved:
        o = u.circle((S.real('x0'), S.real('y0')), r, '#112233')
        u.moveCircle(o, (x, y), r, (a, b))
    else:
        o = u.circle((x, y), r, '#112233', endpoints=(a, b))
    it = fake.canvas.items[o]
    S.eq(it.opts['start'], a, 'from-the-first-angle', lambda: it)
    e = it.opts['extent']
    S.check(truth(e >= 0), 'runs-forward', lambda: (a, b, it))
    turns = [k for k in range(0, 5) if truth(e == b - a + 360 * k)]
    S.check(len(turns) == 1 and (turns[0] == 0 or truth(e < 360)), 'to-the-second-angle', lambda: (a, b, it))
    for p, q in zip(it.coords, [x - r - 1, y - r - 1, x + r, y + r]):
        S.eq(p, q, 'circle-around-its-centre', lambda: (x, y, r, it))
    if moved:
        u.moveCircle(o, (x, y), r)
        S.check(it.opts['start'] == 0 and it.opts['extent'] == 359, 'full-circle-by-default', lambda: it)


def texts(S):
    fake, u = start(S)
    n = 1 + S.choose('n', 2)
    os_ = [u.text((10, i), '#112233', f'text {i}') for i in range(n)]
    k = S.choose('k', n)
    font = S.pick('font', [None, 'Times'])
    size = S.choose('size', 3) + 10
    new = S.pick('new', ['', 'new', 'SCORE: % 4d' % 17])
    u.changeText(os_[k], new, font, size, 'bold')
    for i, o in enumerate(os_):
        it = fake.canvas.items[o]
        if i == k:
            S.check(it.opts['text'] == new, 'text-changed', lambda: it)
            S.check(it.opts['font'] == ((font, f'-{size}', 'bold') if font else ('Helvetica', '12', 'normal')), 'font-changed-if-given', lambda: it)
        else:
            S.check(it.opts['text'] == f'text {i}' and it.opts['font'] == ('Helvetica', '12', 'normal'), 'other-texts-stay', lambda: it)


def colours(S):
    """three channels of two hexadecimal digits; back again within a level"""
    Fake(S)
    import graphicsUtils as u
    k = S.choose('level', 256)
    other = S.pick('others', [[0, 1], [0.5, 0.5], [1, 0]])
    pos = S.choose('channel', 3)
    rgb = list(other)
    rgb.insert(pos, k / 255)
    c = u.formatColor(*rgb)
    S.check(len(c) == 7 and c[0] == '#' and c == c.lower(), 'colour-form', lambda: (rgb, c))
    v = [int(c[i:i + 2], 16) for i in (1, 3, 5)]
    S.check(all(abs(a - b * 255) <= 1 for a, b in zip(v, rgb)) and v[pos] == int(k / 255 * 255), 'colour-levels', lambda: (rgb, c))
    S.check(all(abs(a - b / 256) < 1e-9 for a, b in zip(u.colorToVector(c), v)), 'colour-back', lambda: (c, u.colorToVector(c)))


def behind(S):
    """a square drawn behind another item is covered by it and by everything above it"""
    fake, u = start(S)
    a = [u.square((i, i), 5, '#112233') for i in range(3)]
    below = 1 + S.choose('below', 4)
    b = u.square((9, 9), 5, '#445566', behind=below)
    order = fake.canvas.order
    S.check([i for i in order if i != b] == [1] + a and order.index(b) + 1 == order.index(below), 'drawn-behind', lambda: (below, order))


def large(S):
    """many shapes, some of them changed: nothing else changes"""
    fake, u = start(S, width=300, height=200, color='#102030')
    all_ = {}
    for i in range(12):
        x, y = (S.real('x'), S.real('y')) if i == 5 else (10 * i, 7 * i)
        c = '#11223%x' % i
        if i % 4 == 0:
            o = u.square((x, y), 5, c, 1)
            all_[o] = ['polygon', [x - 5, y - 5, x + 5, y - 5, x + 5, y + 5, x - 5, y + 5], {'outline': c, 'fill': c}]
        elif i % 4 == 1:
            o = u.circle((x, y), 4, c)
            all_[o] = ['arc', [x - 5, y - 5, x + 4, y + 4], {'outline': c, 'fill': c, 'extent': 359}]
        elif i % 4 == 2:
            o = u.line((x, y), (x + 3, y + 9), c, 2)
            all_[o] = ['line', [x, y, x + 3, y + 9], {'fill': c, 'width': 2}]
        else:
            pts = [(x + k, y + k * k) for k in range(7)]
            o = u.polygon(pts, c, filled=1)
            all_[o] = ['polygon', [v for p in pts for v in p], {'outline': c, 'fill': c}]
    S.check(len(all_) == 12, 'shapes-of-their-own')
    looks(S, fake, all_, 'drawn')
    dx, dy = S.real('dx'), S.real('dy')
    for j, o in enumerate(sorted(all_)):
        what = S.choose(f'what{j}', 4) if j in (0, 5, 7, 11) else j % 4
        kind, pts, opts = all_[o]
        if what == 0:
            u.move_by(o, dx, dy)
            pts = [v + (dy if k % 2 else dx) for k, v in enumerate(pts)]
        elif what == 1:
            u.move_to(o, dx, dy)
            pts = [v + (dy - pts[1] if k % 2 else dx - pts[0]) for k, v in enumerate(pts)]
        elif what == 2:
            u.changeColor(o, '#abcdef')
            opts = dict(opts, fill='#abcdef')
        else:
            u.remove_from_screen(o)
        all_[o] = None if what == 3 else [kind, pts, opts]
    looks(S, fake, all_, 'changed')
    background(S, fake, (300, 200))


SCENARIOS = {'shapes': shapes, 'circles': circles, 'texts': texts, 'colours': colours, 'behind': behind, 'large': large}
