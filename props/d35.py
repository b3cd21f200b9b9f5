"""D35 a layout file becomes the board and the initial state it draws"""
from props.board import empty_text, Board, Ghost, truth, view, VEC, NAMES

BOUNDS = {'quick': 'texts of 3x1, 1x3 and 2x2 cells with every character of "%.oPG1234 x" in every cell (2x2: "%.oPG2 "), '
                   'a 12x7 board with 3 cells of any content, any '
                   'limit of ghosts; file search over 4 directory levels with every combination of present files',
          'thorough': '4x1 and 3x2 cells'}
OUTSIDE = 'ragged layout texts; more than one P; any content of more than 6 cells'
CHARS = '%.oPG1234 x'


def text_of(S, shapes, chars):
    w, h = S.pick('shape', shapes)
    return [''.join(S.pick(f'c{r}_{c}', chars) for c in range(w)) for r in range(h)]


def reference(text):
    h, w = len(text), len(text[0])
    at = {}
    for y in range(h):
        for x in range(w):
            at[x, y] = text[h - 1 - y][x]
    ag = sorted((0 if c == 'P' else 1 if c == 'G' else int(c), p) for p, c in at.items() if c in 'PG1234')
    return w, h, at, ag


def check_layout(S, text):
    import layout
    lay = layout.Layout(list(text))
    w, h, at, ag = reference(text)
    det = lambda: (text, lay.capsules, lay.agentPositions)
    S.check((lay.width, lay.height) == (w, h), 'size', det)
    for (x, y), c in at.items():
        S.check(truth(lay.walls[x][y]) == (c == '%') and truth(lay.isWall((x, y))) == (c == '%'), 'walls', det)
        S.check(truth(lay.food[x][y]) == (c == '.'), 'food', det)
    S.check((lay.walls.width, lay.walls.height, lay.food.width, lay.food.height) == (w, h, w, h), 'size', det)
    S.check(sorted(lay.capsules) == sorted(p for p, c in at.items() if c == 'o'), 'capsules', det)
    S.check(list(lay.agentPositions) == [(k == 0, p) for k, p in ag], 'agents-in-order', det)
    S.check(lay.getNumGhosts() == sum(1 for k, _ in ag if k), 'number-of-ghosts', det)
    S.check(lay.totalFood == sum(1 for c in at.values() if c == '.'), 'total-food', det)
    S.check(str(lay) == '\n'.join(text), 'text', det)
    return lay, at, ag


def line(S):
    text = text_of(S, S.deep([(3, 1), (1, 3)], [(4, 1), (1, 4)]), CHARS)
    S.assume(sum(r.count('P') for r in text) <= 1)
    lay, at, ag = check_layout(S, text)
    c = lay.deepCopy()
    S.check(c.walls == lay.walls and c.food == lay.food and list(c.capsules) == list(lay.capsules)
            and list(c.agentPositions) == list(lay.agentPositions) and c.getNumGhosts() == lay.getNumGhosts(), 'copy', text)
    c.walls[0][0] = not c.walls[0][0]
    c.food[0][0] = not c.food[0][0]
    c.capsules.append((7, 7))
    S.check(truth(lay.walls[0][0]) == (at[0, 0] == '%') and truth(lay.food[0][0]) == (at[0, 0] == '.')
            and (7, 7) not in lay.capsules, 'copy-independent', text)


def initial(S):
    """the state a game starts from"""
    import pacman
    text = text_of(S, S.deep([(2, 2)], [(3, 2)]), S.deep('%.oPG2 ', '.oPG1 '))
    S.assume(sum(r.count('P') for r in text) == 1)
    lay, at, ag = check_layout(S, text)
    k = S.choose('ghosts', 3)
    st = pacman.GameState()
    st.initialize(lay, k)
    want = [(True, p) for i, p in ag if i == 0] + [(False, p) for i, p in ag if i][:k]
    det = lambda: (text, k, view(st))
    S.check([(truth(a.isPacman), a.getPosition(), a.getDirection(), a.scaredTimer) for a in st.data.agentStates]
            == [(i, p, 'Stop', 0) for i, p in want], 'agents', det)
    S.check(st.getNumAgents() == len(want) and st.getPacmanPosition() == want[0][1]
            and st.getGhostPositions() == [p for _, p in want[1:]] and len(st.getGhostStates()) == len(want) - 1, 'agents', det)
    S.check(S.refused(S.attempt(st.getGhostPosition, 0)) and S.refused(S.attempt(st.getGhostState, 0))
            and S.refused(S.attempt(st.getGhostState, len(want))), 'no-such-ghost', det)
    S.check(st.getScore() == 0 and not st.isWin() and not st.isLose(), 'fresh', det)
    S.check(all(truth(st.hasFood(*p)) == (c == '.') and truth(st.hasWall(*p)) == (c == '%') for p, c in at.items())
            and st.getNumFood() == sum(1 for c in at.values() if c == '.'), 'board', det)
    S.check(sorted(st.getCapsules()) == sorted(p for p, c in at.items() if c == 'o'), 'capsules', det)
    S.check(st.getWalls() == lay.walls and st.getFood() == lay.food, 'board', det)
    S.check(len(st.data._eaten) == len(want) and not any(st.data._eaten), 'fresh', det)
    # the state has its own food and capsules
    st.data.food[0][0] = not st.data.food[0][0]
    st.data.capsules.append((8, 8))
    S.check(truth(lay.food[0][0]) == (at[0, 0] == '.') and (8, 8) not in lay.capsules, 'layout-independent', det)


def picture(S):
    """the printed board shows what is where"""
    w, h = 5, 4
    inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
    walls = {(1, 2): S.bool('wall')}
    food = {(3, 2): S.bool('f0'), (2, 1): S.bool('f1')}
    pac = S.pick('pac', [(1, 1), (2, 1)])
    pd = S.pick('pdir', NAMES)
    g = S.pick('ghost', [(2, 2), (2.5, 2), (3, 1)])
    caps = [c for c in [(3, 1), (2, 2)] if S.flag(f'cap{c[0]}')]
    b = Board(S, w, h, pac, pd, [Ghost(g, 'West', 3, (1, 1))], walls, food, caps, S.pick('score', [0, 12, -7]))
    want = {}
    for x in range(w):
        for y in range(h):
            want[x, y] = '.' if truth(food.get((x, y), False)) else '%' if truth(b.wall((x, y))) else ' '
    want[pac] = {'North': 'v', 'South': '^', 'West': '>'}.get(pd, '<')
    want[int(g[0] + 0.5), int(g[1] + 0.5)] = 'G'
    for c in caps:
        want[c] = 'o'
    got = str(b.state)
    text = '\n'.join(''.join(want[x, y] for x in range(w)) for y in reversed(range(h))) + f'\nScore: {b.score}\n'
    S.check(got == text, 'picture', lambda: (got, text))


def found(S):
    """the nearest file of that name is loaded, and the working directory stays"""
    import os
    import shutil
    import tempfile
    name = S.pick('name', ['maze', 'maze.lay'])
    top, cwd = os.path.realpath(tempfile.mkdtemp(prefix='symx_lay')), os.getcwd()
    files, want = [], None
    at = os.path.join(top, 'b', 'c', 'd')
    os.makedirs(at)
    home = at
    try:
        for lv in range(4):
            for where in ('layouts/maze.lay', 'maze.lay'):
                if S.flag(f'f{lv}{where[0]}'):
                    text = f'%P{lv}%' if where[0] == 'l' else f'%P {lv}%'
                    os.makedirs(os.path.dirname(os.path.join(at, where)), exist_ok=True)
                    with open(os.path.join(at, where), 'w') as f:
                        f.write(text + '\n')
                    files.append((lv, where))
                    want = want or text
            at = os.path.dirname(at)
        os.chdir(home)
        import layout
        lay = layout.getLayout(name)
        S.check(os.getcwd() == home, 'working-directory-kept', os.getcwd())
        again = None
        if files:
            p = os.path.join(home, *['..'] * files[0][0], files[0][1])
            with open(p, 'w') as f:
                f.write('%%%\n%P%\n')
            again = layout.getLayout(name)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)
    S.check((lay is None) == (want is None) and (want is None or str(lay) == want), 'nearest-file', lambda: (files, str(lay)))
    S.check(not files or str(again) == '%%%\n%P%', 'what-the-file-says-now', lambda: (files, str(again)))


def corners(S):
    import layout
    from props.board import fake_random
    w, h = S.pick('w', [4, 5, 6]), S.pick('h', [4, 6])
    lay = layout.Layout(empty_text(w, h))
    cs = [(1, 1), (1, h - 2), (w - 2, 1), (w - 2, h - 2)]
    p = (S.real('x', 0, 6), S.real('y', 0, 6))
    got = lay.getFurthestCorner(p)
    d = lambda a: abs(a[0] - p[0]) + abs(a[1] - p[1])
    S.check(got in cs, 'a-corner', got)
    for c in cs:
        S.check(d(c) <= d(got), 'furthest-corner', lambda: (p, got))
    fake_random(S)
    S.check(lay.getRandomCorner() in cs, 'a-corner')


def anywhere(S):
    """a random legal position is a free cell of the board"""
    import random
    import layout
    w, h = S.pick('size', [(4, 4), (5, 3)])
    lay = layout.Layout(empty_text(w, h))
    free = {}
    for x in range(1, w - 1):
        for y in range(1, h - 1):
            free[x, y] = not S.flag(f'wall{x}_{y}')
            lay.walls[x][y] = not free[x, y]
    S.assume(any(free.values()))
    n = [0]

    def choice(seq):
        n[0] += 1
        S.assume(n[0] <= 4)
        seq = list(seq)
        return seq[S.choose(f'draw{n[0]}', len(seq))]
    S.patch(random, 'choice', choice)
    got = lay.getRandomLegalPosition()
    S.check(free.get(got, False), 'a-free-cell', lambda: (free, got))
    S.check(truth(lay.isWall(got)) is False and all(truth(lay.isWall(c)) == (not free.get(c, False)) for c in
            [(x, y) for x in range(w) for y in range(h)]), 'is-wall', lambda: free)


def large(S):
    """a board of real size with everything on it"""
    import pacman
    rows = ['%%%%%%%%%%%%', '%o..%....  %', '%.%%G%1.%%.%', '%...  4  ..%', '%%.P.%3%%.o%', '%....2.....%', '%%%%%%%%%%%%']
    for i, (r, c) in enumerate([(1, 10), (3, 4), (5, 1)]):
        ch = S.pick(f'c{i}', '%oG1. ' if i < 2 else '%.4')
        rows[r] = rows[r][:c] + ch + rows[r][c + 1:]
    lay, at, ag = check_layout(S, rows)
    k = S.choose('ghosts', 8)
    st = pacman.GameState()
    st.initialize(lay, k)
    want = [(True, p) for i, p in ag if i == 0] + [(False, p) for i, p in ag if i][:k]
    det = lambda: (rows, k, view(st))
    S.check([(truth(a.isPacman), a.getPosition(), a.getDirection(), a.scaredTimer) for a in st.data.agentStates]
            == [(i, p, 'Stop', 0) for i, p in want], 'agents', det)
    S.check(st.getGhostPositions() == [p for _, p in want[1:]] and st.getNumAgents() == len(want)
            and [st.getGhostPosition(i) for i in range(1, len(want))] == [p for _, p in want[1:]], 'agents', det)
    S.check(all(truth(st.hasFood(*p)) == (c == '.') and truth(st.hasWall(*p)) == (c == '%') for p, c in at.items())
            and st.getNumFood() == sum(1 for c in at.values() if c == '.'), 'board', det)
    S.check(sorted(st.getCapsules()) == sorted(p for p, c in at.items() if c == 'o'), 'capsules', det)
    S.check(len(st.data._eaten) == len(want) and not any(st.data._eaten), 'fresh', det)
    want_text = {p: c if c in '%.' else ' ' for p, c in at.items()}
    for i, p in want:
        want_text[p] = '<' if i else 'G'
    for p, c in at.items():
        if c == 'o':
            want_text[p] = 'o'
    text = '\n'.join(''.join(want_text[x, y] for x in range(12)) for y in reversed(range(7))) + '\nScore: 0\n'
    S.check(str(st) == text, 'picture', lambda: (str(st), text))


SCENARIOS = {'line': line, 'initial': initial, 'picture': picture, 'found': found, 'corners': corners, 'anywhere': anywhere, 'large': large}
