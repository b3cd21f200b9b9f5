"""Symbolic boards and game states of the demo game (util, game, layout, pacman)"""

NAMES = ['North', 'South', 'East', 'West', 'Stop']
VEC = {'North': (0, 1), 'South': (0, -1), 'East': (1, 0), 'West': (-1, 0), 'Stop': (0, 0)}
BACK = {'North': 'South', 'South': 'North', 'East': 'West', 'West': 'East', 'Stop': 'Stop'}


def empty_text(w, h):
    """walls all around"""
    return ['%' * w] + ['%' + ' ' * (w - 2) + '%' for _ in range(h - 2)] + ['%' * w]


def truth(b):
    return True if b else False


class Ghost:
    def __init__(self, pos, direction, timer, start):
        self.pos, self.direction, self.timer, self.start = pos, direction, timer, start


class Board:
    """A game state made of the given parts, and the parts themselves (the reference value)"""

    def __init__(self, S, w, h, pac, pac_dir, ghosts, walls, food, capsules, score, eaten=None, text=None):
        import game
        import layout
        import pacman
        self.S, self.w, self.h = S, w, h
        self.pac, self.pac_dir, self.ghosts = pac, pac_dir, ghosts
        self.walls, self.food, self.capsules, self.score = walls, food, list(capsules), score
        lay = layout.Layout(text or empty_text(w, h))
        for (x, y), b in walls.items():
            lay.walls[x][y] = b
        self.layout = lay
        st = pacman.GameState()
        d = st.data
        d.layout = lay
        g = game.Grid(w, h)
        for (x, y), b in food.items():
            g[x][y] = b
        d.food = g
        d.capsules = list(capsules)
        d.score = score
        d.scoreChange = 0
        agents = []
        a = game.AgentState(game.Configuration(pac, 'Stop'), True)
        a.configuration = game.Configuration(pac, pac_dir)
        agents.append(a)
        for gh in ghosts:
            a = game.AgentState(game.Configuration(gh.start, 'Stop'), False)
            a.configuration = game.Configuration(gh.pos, gh.direction)
            a.scaredTimer = gh.timer
            agents.append(a)
        d.agentStates = agents
        d._eaten = list(eaten) if eaten is not None else [False for _ in agents]
        self.state = st

    def wall(self, c):
        x, y = c
        if x <= 0 or y <= 0 or x >= self.w - 1 or y >= self.h - 1:
            return True
        return self.walls.get(c, False)


def view(st):
    """everything a state shows"""
    d = st.data
    return {
        'agents': [(a.configuration.pos, a.configuration.direction, a.scaredTimer, a.isPacman, a.start.pos, a.start.direction)
                   for a in d.agentStates],
        'food': [list(c) for c in d.food.data],
        'capsules': list(d.capsules), 'score': d.score, 'eaten': list(d._eaten),
        'win': d._win, 'lose': d._lose, 'food_eaten': d._foodEaten, 'capsule_eaten': d._capsuleEaten,
        'moved': d._agentMoved, 'change': d.scoreChange,
        'walls': [list(c) for c in d.layout.walls.data],
    }


def same_pos(S, a, b, label, detail=None):
    S.check(isinstance(a, tuple) and len(a) == 2, label, detail)
    S.eq(a[0], b[0], label, detail)
    S.eq(a[1], b[1], label, detail)


def same_view(S, a, b, label, skip=()):
    det = lambda: (a, b)
    for k in b:
        if k in skip:
            continue
        x, y = a[k], b[k]
        if k == 'agents':
            S.check(len(x) == len(y), label + '.agents', det)
            for p, q in zip(x, y):
                same_pos(S, p[0], q[0], label + '.agents', det)
                same_pos(S, p[4], q[4], label + '.agents', det)
                S.check(p[1] == q[1] and truth(p[3]) == truth(q[3]) and p[5] == q[5], label + '.agents', det)
                S.eq(p[2], q[2], label + '.agents', det)
        elif k in ('food', 'walls'):
            S.check([len(c) for c in x] == [len(c) for c in y], label + '.' + k, det)
            for c, e in zip(x, y):
                for i, j in zip(c, e):
                    S.check(i is j or i == j, label + '.' + k, det)
        elif k == 'eaten':
            S.check(len(x) == len(y) and all(truth(i) == truth(j) for i, j in zip(x, y)), label + '.' + k, det)
        elif k in ('win', 'lose'):
            S.check(truth(x) == truth(y), label + '.' + k, det)
        elif k in ('score', 'change'):
            S.eq(x, y, label + '.' + k, det)
        else:
            S.check(x == y, label + '.' + k, det)


def legal_moves(wall, cell):
    return [d for d in NAMES if not wall((cell[0] + VEC[d][0], cell[1] + VEC[d][1]))]


def fake_random(S, draws=None):
    """every number drawn from the module `random` is an input"""
    import random
    f = FakeRandom(S, draws)
    S.patch(random, 'random', f.random)
    S.patch(random, 'choice', f.choice)
    return f


class FakeRandom:
    """stands for the module `random`: every drawn number is an input"""

    def __init__(self, S, draws=None):
        self.S, self.n, self.draws = S, 0, draws
        self.asked = []

    def random(self):
        i = self.n
        self.n += 1
        if self.draws is not None:
            return self.draws[i]
        return self.S.real(f'rand{i}', 0, 1, hi_open=True)

    def choice(self, seq):
        seq = list(seq)
        if not seq:
            raise IndexError('Cannot choose from an empty sequence')
        i = self.n
        self.n += 1
        self.asked.append(seq)
        return seq[self.S.choose(f'rand{i}', len(seq))]
