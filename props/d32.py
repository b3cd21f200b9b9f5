"""D32 the outcome of a move of pacman"""
from props.board import NAMES, VEC, BACK, Board, Ghost, legal_moves, same_pos, truth

BOUNDS = {'quick': 'pacman on any cell of a 3x2 interior, every move; food on up to 3 cells next to it and 1 apart, capsules '
                   'on up to 2 cells, 1 ghost at any real position with any timer, 2 ghosts on one cell row; any score; '
                   '4 ghosts, 2 of them anywhere, much food and 5 capsules on a 7x4 interior',
          'thorough': 'food on up to 5 cells, 2 ghosts at any real position'}
OUTSIDE = 'the score when two ghosts catch pacman in the same move (only the loss is claimed); more than 4 ghosts'


def dist(a, b):
    dx, dy = a[0] - b[0], a[1] - b[1]
    return (dx if dx >= 0 else -dx) + (dy if dy >= 0 else -dy)


def expect(S, b, a, n):
    """checks the successor n of b after pacman moved by a"""
    d = n.data
    det = lambda: (b.pac, a, [(g.pos, g.timer) for g in b.ghosts], view_of(n))
    to = (b.pac[0] + VEC[a][0], b.pac[1] + VEC[a][1])
    same_pos(S, n.getPacmanPosition(), to, 'pacman-position', det)
    S.check(d.agentStates[0].getDirection() == (b.pac_dir if a == 'Stop' else a), 'pacman-direction', det)
    ate = truth(b.food.get(to, False))
    food = n.getFood()
    left = 0
    for x in range(b.w):
        for y in range(b.h):
            f = False if (x, y) == to else truth(b.food.get((x, y), False))
            left += 1 if f else 0
            S.check(truth(food[x][y]) == f and truth(n.hasFood(x, y)) == f, 'food-left', det)
    S.check(n.getNumFood() == left, 'food-count', det)
    win = ate and left == 0
    cap = to in b.capsules
    S.check(sorted(n.getCapsules()) == sorted(c for c in b.capsules if c != to), 'capsules-left', det)
    score = -1 + (10 if ate else 0) + (500 if win else 0)
    lethal = 0
    for i, g in enumerate(b.ghosts):
        st = n.getGhostState(i + 1)
        t = 40 if cap else g.timer
        hit = truth(dist(g.pos, to) <= 0.7)
        scared = truth(t > 0)
        if hit and scared:
            score += 200
            same_pos(S, st.getPosition(), g.start, 'eaten-ghost-restarts', det)
            S.eq(st.scaredTimer, 0, 'eaten-ghost-not-scared', det)
            S.cover('eaten')
        else:
            same_pos(S, st.getPosition(), g.pos, 'ghost-stays', det)
            S.check(st.getDirection() == g.direction, 'ghost-stays', det)
            S.eq(st.scaredTimer, t, 'scared-timer', det)
            if hit:
                lethal += 1
        S.check(truth(d._eaten[i + 1]) == (hit and scared), 'eaten-marks', det)
    lose = lethal > 0 and not win
    if lose:
        score -= 500
        S.cover('caught')
    if win:
        S.cover('won')
    S.check(truth(n.isWin()) == win, 'win', det)
    S.check(truth(n.isLose()) == lose, 'lose', det)
    if lethal < 2 or win:
        S.eq(d.score, b.score + score, 'score', det)
        S.eq(n.getScore(), b.score + score, 'score', det)
        S.eq(d.scoreChange, score, 'score-change', det)
    S.check(d._foodEaten == (to if ate else None), 'food-eaten-mark', det)
    S.check(d._capsuleEaten == (to if cap else None), 'capsule-eaten-mark', det)
    S.check(d._agentMoved == 0, 'agent-moved-mark', det)
    if win or lose:
        S.check(n.getLegalActions(0) == [] and all(n.getLegalActions(i + 1) == [] for i in range(len(b.ghosts))),
                'finished-no-moves', det)
        for i in range(len(b.ghosts) + 1):
            for x in NAMES:
                S.check(S.refused(S.attempt(n.generateSuccessor, i, x)), 'finished-no-successor', det)
    else:
        S.check(len(n.getLegalActions(0)) > 0, 'goes-on', det)


def view_of(n):
    from props.board import view
    return view(n)


def setup(S, ghosts, n_food, n_caps, w=5, h=4):
    cell = (1 + S.choose('px', w - 2), 1 + S.choose('py', h - 2))
    a = S.pick('action', NAMES)
    to = (cell[0] + VEC[a][0], cell[1] + VEC[a][1])
    S.assume(0 < to[0] < w - 1 and 0 < to[1] < h - 1)
    shut = S.flag('others_shut')
    inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
    walls = {c: True for c in inner if shut and c not in (cell, to)}
    near = [to] + [c for c in inner if c != to]
    food = {c: S.bool(f'food{i}') for i, c in enumerate(near[:n_food])}
    caps = [c for i, c in enumerate([to, near[-1]][:n_caps]) if S.flag(f'cap{i}')]
    if len(caps) == 2 and S.flag('cap_order'):
        caps.reverse()
    return Board(S, w, h, cell, S.pick('pdir', ['Stop', BACK[a] if a != 'Stop' else 'North']), ghosts, walls, food, caps,
                 S.int('score')), a


def ghost(S, i, timer=None):
    return Ghost((S.real(f'gx{i}', 0, 5), S.real(f'gy{i}', 0, 4)), 'West', S.int(f'timer{i}', 0, 40) if timer is None else timer,
                 (3, 2))


def run(S, b, a, both=False):
    n = S.attempt(b.state.generatePacmanSuccessor if both and S.flag('pac_api') else
                  (lambda x: b.state.generateSuccessor(0, x)), a)
    S.check(not S.refused(n), 'legal-move-accepted', lambda: n)
    if not S.refused(n):
        expect(S, b, a, n)


def no_ghost(S):
    b, a = setup(S, [], S.deep(3, 5), 2)
    run(S, b, a, True)


def one_ghost(S):
    b, a = setup(S, [ghost(S, 0)], 2, 1)
    run(S, b, a)


def two_ghosts(S):
    if S.tier == 'thorough':
        gs = [ghost(S, 0), ghost(S, 1)]
    else:
        gs = [Ghost((S.real('gx0', 0, 5), 1), 'East', S.int('timer0', 0, 40), (3, 2)),
              Ghost((S.real('gx1', 0, 5), 1), 'East', S.int('timer1', 0, 40), (1, 1))]
    b, a = setup(S, gs, 1, 1, 4, 4)
    run(S, b, a)


one_ghost.covers = ('eaten', 'caught', 'won')
two_ghosts.covers = ('eaten', 'caught', 'won')
no_ghost.covers = ('won',)
def large(S):
    """four ghosts, much food and many capsules on a wide board"""
    w, h = 9, 6
    cell, a = S.pick('from', [(4, 2), (7, 4), (1, 1)]), S.pick('action', NAMES)
    to = (cell[0] + VEC[a][0], cell[1] + VEC[a][1])
    S.assume(0 < to[0] < w - 1 and 0 < to[1] < h - 1)
    inner = [(x, y) for x in range(1, w - 1) for y in range(1, h - 1)]
    last = S.flag('last')
    food = {c: (not last and (c[0] + c[1]) % 2 == 0) for c in inner}
    food[to] = S.bool('food')
    caps = [(1, 4), (7, 1), (4, 4), (2, 2)]
    if S.flag('cap'):
        caps.insert(2, to)
    m = S.choose('mover', 4)
    gs = [Ghost((2 + i, 4), NAMES[i], i * 9, (1 + i, 1)) for i in range(4)]
    gs[m] = Ghost((S.real('gx', 0, 9), S.real('gy', 0, 6)), 'West', S.int('timer', 0, 40), (7, 4))
    if S.flag('same'):
        gs[(m + 1) % 4] = Ghost(to, 'South', S.int('timer1', 1, 40), (7, 3))
    b = Board(S, w, h, cell, 'Stop', gs, {}, food, caps, S.int('score'), eaten=[False] + [S.flag('eaten')] * 4)
    run(S, b, a)


large.covers = ('eaten', 'caught', 'won')


SCENARIOS = {'no_ghost': no_ghost, 'one_ghost': one_ghost, 'two_ghosts': two_ghosts, 'large': large}
