"""D34 game states are values: successors and copies never change or share what they came from"""
from props.board import NAMES, VEC, BACK, Board, Ghost, same_view, same_pos, truth, view

BOUNDS = {'quick': '3x1 and 2x2 interiors, every content of food and capsules there, a ghost on any cell or half way, any '
                   'timer; histories of 2 moves (pacman and ghost in every order); histories of 8 moves with 3 ghosts on a 4x3 interior; histories of 3 moves on boards of 4x16, 16x4 and 9x9 full of food; two routes over a 6x3 interior', 'thorough': 'histories of 3 moves'}
OUTSIDE = 'direct changes of the grids and lists a state hands out'


def any_state(S, w, h, n_food=2, eaten=None, small=False):
    inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
    pac = S.pick('pac', inner[:2] if small else inner)
    g = S.pick('ghost', inner)
    food = {c: S.bool(f'food{i}') for i, c in enumerate(inner[:n_food])}
    food[inner[-1]] = True
    caps = [c for i, c in enumerate(inner[:1 if small else 2]) if S.flag(f'cap{i}')]
    d = 'Stop' if small else S.pick('gdir', ['Stop', 'East'])
    return Board(S, w, h, pac, 'Stop', [Ghost(g, d, S.int('timer', 0, 40), inner[-1])], {}, food, caps, S.int('score'),
                 eaten=eaten)



def moves(S, w, h, steps, small=False):
    b = any_state(S, w, h, eaten=[False, S.flag('eaten')], small=small)
    trail = [(b.state, view(b.state))]
    st = b.state
    for i in range(steps):
        if st.isWin() or st.isLose():
            S.cover('finished')
            break
        who = S.choose(f'who{i}', 2)
        legal = st.getLegalActions(who)
        S.assume(len(legal) > 0)
        st = st.generateSuccessor(who, S.pick(f'act{i}', legal))
        trail.append((st, view(st)))
        S.cover('step')
    for j, (s, v) in enumerate(trail):
        same_view(S, view(s), v, 'earlier-state-unchanged')
    # legal moves and observations change nothing either
    for s, v in trail:
        for i in range(s.getNumAgents()):
            s.getLegalActions(i)
            if i:
                s.getGhostState(i), s.getGhostPosition(i)
        s.getPacmanState(), s.getPacmanPosition(), s.getGhostStates(), s.getGhostPositions(), s.getNumFood(), s.getScore()
        s.getFood(), s.getWalls(), s.getCapsules(), s.isWin(), s.isLose()
        same_view(S, view(s), v, 'questions-change-nothing')


def corridor(S):
    moves(S, 5, 3, S.deep(2, 3))


def room(S):
    moves(S, 4, 4, S.deep(2, 3), True)


corridor.covers = ('finished', 'step')


def refused(S):
    """a refused move changes nothing"""
    b = any_state(S, 4, 3)
    v = view(b.state)
    r = S.attempt(b.state.generateSuccessor, S.choose('who', 2), S.pick('act', NAMES))
    S.assume(S.refused(r))
    same_view(S, view(b.state), v, 'refused-changes-nothing')


def deep(S):
    """a deep copy shows the same, and moves of either are invisible to the other"""
    b = any_state(S, 5, 3, eaten=[False, S.flag('eaten')])
    st = b.state
    if S.flag('moved'):
        who = S.choose('who', 2)
        legal = st.getLegalActions(who)
        S.assume(len(legal) > 0)
        st = st.generateSuccessor(who, S.pick('act', legal))
    v = view(st)
    c = st.deepCopy()
    same_view(S, view(c), v, 'copy-shows-the-same', skip=('change', 'walls'))
    same_view(S, view(st), v, 'copying-changes-nothing')
    S.check(truth(c == st) and truth(st == c), 'copy-equal')
    S.check(hash(c) == hash(st), 'copy-equal-hash')
    # change everything of the copy
    x, y = b.pac
    c.data.food[x][y] = False if c.data.food[x][y] else True
    c.data.capsules.append((9, 9))
    c.data.score = c.data.score + 1
    c.data.agentStates[1].scaredTimer = 17
    c.data._eaten[0] = True
    same_view(S, view(st), v, 'copy-independent')


def equality(S):
    """equal exactly when the agents, food, capsules and score are; equal states hash alike"""
    def st(n):
        inner = [(1, 1), (2, 1)]
        g = Ghost(inner[S.choose(n + 'g', 2)], S.pick(n + 'd', ['Stop', 'East']), S.int(n + 't', 0, 40), (1, 1))
        food = {(1, 1): S.bool(n + 'f'), (2, 1): True}
        return Board(S, 4, 3, inner[S.choose(n + 'p', 2)], 'Stop', [g], {}, food, [(2, 1)] if S.flag(n + 'c') else [],
                     S.int(n + 's', 0, 9))
    a, b = st('a'), st('b')
    g, k = a.ghosts[0], b.ghosts[0]
    same = a.pac == b.pac and g.pos == k.pos and g.direction == k.direction and truth(g.timer == k.timer) \
        and truth(a.food[1, 1]) == truth(b.food[1, 1]) and a.capsules == b.capsules and truth(a.score == b.score)
    S.check(truth(a.state == b.state) == same, 'equal-iff-same-situation')
    if same:
        S.cover('same')
        S.check(hash(a.state) == hash(b.state), 'equal-hash')
    S.check(not (a.state == None) and not (a.state == 3), 'other-things')  # noqa: E711


equality.covers = ('same',)
def large(S):
    """a longer history with three ghosts, food and capsules: no state of it ever changes"""
    w, h = 6, 5
    gs = [Ghost((4, 3), 'Stop', S.int('timer', 0, 3), (4, 3)), Ghost((3, 3), 'Stop', 0, (3, 3)), Ghost((4, 1), 'Stop', 5, (4, 1))]
    inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
    b = Board(S, w, h, (1, 1), 'Stop', gs, {}, {c: True for c in inner[::2]}, [(2, 1), (4, 2)], S.int('score'))
    trail = [(b.state, view(b.state))]
    st = b.state
    for i in range(8):
        if st.isWin() or st.isLose():
            break
        legal = sorted(st.getLegalActions(i % 4))
        k = S.choose(f'act{i}', min(2, len(legal))) if i in (0, 3, 4, 6) else 0
        st = st.generateSuccessor(i % 4, legal[k])
        trail.append((st, view(st)))
    for s, v in trail:
        same_view(S, view(s), v, 'earlier-state-unchanged')
    c = st.deepCopy()
    v = trail[-1][1]
    same_view(S, view(c), v, 'copy-shows-the-same', skip=('change', 'walls'))
    S.check(truth(c == st) and hash(c) == hash(st), 'copy-equal')
    for i in range(4):
        c.data.agentStates[i].scaredTimer = 99
        S.check(not truth(c == st), 'equal-iff-same-situation', lambda: i)
        same_view(S, view(st), v, 'copy-independent')
        c.data.agentStates[i].scaredTimer = v['agents'][i][2]
    S.check(truth(c == st) and hash(c) == hash(st), 'copy-equal')
    c.data.capsules.append((3, 2))
    c.data.food[4][3] = not c.data.food[4][3]
    S.check(not truth(c == st), 'equal-iff-same-situation')
    same_view(S, view(st), v, 'copy-independent')
    # two states which differ in one ghost are different, also far back in the list
    S.check(len(trail) < 3 or not truth(trail[1][0] == trail[2][0]) or view_key(trail[1][1]) == view_key(trail[2][1]), 'equal-iff-same-situation')


def tall(S):
    """boards full of food, high or wide: successors leave the earlier states alone"""
    w, h = S.pick('size', [(4, 16), (16, 4), (9, 9)])
    inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
    pac = S.pick('pac', [inner[0], inner[len(inner) // 2], inner[-1]])
    food = {c: True for c in inner}
    food[inner[1]], food[inner[-2]] = S.bool('food0'), S.bool('food1')
    b = Board(S, w, h, pac, 'Stop', [Ghost(inner[len(inner) // 3], 'Stop', S.int('timer', 0, 40), inner[5])], {}, food, inner[::4], S.int('score'))
    trail = [(b.state, view(b.state))]
    st = b.state
    for i in range(3):
        if st.isWin() or st.isLose():
            break
        st = st.generateSuccessor(i % 2, S.pick(f'act{i}', sorted(st.getLegalActions(i % 2))))
        trail.append((st, view(st)))
    for s, v in trail:
        same_view(S, view(s), v, 'earlier-state-unchanged')
    c = st.deepCopy()
    same_view(S, view(c), trail[-1][1], 'copy-shows-the-same', skip=('change', 'walls'))
    for x, y in inner:
        c.data.food[x][y] = False
    del c.data.capsules[:]
    same_view(S, view(st), trail[-1][1], 'copy-independent')


def routes(S):
    """the same things done in another order give equal states"""
    w, h = 8, 5
    at = S.pick('pac', [(3, 2), (4, 3)])
    x, y = at
    inner = [(i, j) for i in range(1, w - 1) for j in range(1, h - 1)]
    food = {c: True for c in inner if c != at}
    food[x - 1, y] = S.bool('left')
    food[x + 1, y] = S.bool('right')
    caps = [c for c in inner[::S.pick('every', [1, 3, 7])] if c != at]
    if S.flag('turned'):
        caps.reverse()
    b = Board(S, w, h, at, 'Stop', [], {}, food, caps, S.int('score'))
    ends = []
    for route in (['West', 'East', 'East', 'West', 'South'], ['East', 'West', 'West', 'East', 'South']):
        st = b.state
        for a in route:
            st = st.generateSuccessor(0, a)
        ends.append(st)
    one, two = ends
    S.check(truth(one == two) and truth(two == one), 'equal-whatever-the-order', lambda: (view(one), view(two)))
    S.check(hash(one) == hash(two), 'equal-hash')


def agents(S):
    """equal agent states hash alike, whatever else they carry"""
    import game
    def one(n):
        a = game.AgentState(game.Configuration((S.choose(n + 'x', 2), 1), S.pick(n + 'd', ['Stop', 'East'])), S.flag(n + 'pac'))
        a.scaredTimer = S.int(n + 't', 0, 40)
        a.numCarrying, a.numReturned = S.choose(n + 'c', 2), S.choose(n + 'r', 2)
        if S.flag(n + 'moved'):
            a.configuration = game.Configuration((1, 1), 'East')
        return a
    a, b = one('a'), one('b')
    same = a.configuration.pos == b.configuration.pos and a.configuration.direction == b.configuration.direction \
        and truth(a.scaredTimer == b.scaredTimer)
    S.check(same or not truth(a == b), 'equal-iff-same-situation')
    if truth(a == b):
        S.check(hash(a) == hash(b), 'equal-hash')
    c = a.copy()
    S.check(truth(c == a) and hash(c) == hash(a) and truth(c.isPacman) == truth(a.isPacman) and c.start == a.start
            and (c.numCarrying, c.numReturned) == (a.numCarrying, a.numReturned), 'copy-equal')


def view_key(v):
    return ([a[:3] for a in v['agents']], v['food'], v['capsules'], v['score'])


SCENARIOS = {'corridor': corridor, 'room': room, 'refused': refused, 'deep': deep, 'equality': equality, 'large': large, 'tall': tall, 'routes': routes, 'agents': agents}
