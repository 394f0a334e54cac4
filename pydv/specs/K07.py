"""K07: the shared lock admits one holder at a time.

Rely and guarantee (locks.py): between any two accesses of one process to shared memory the others may do anything their guarantee allows.  Every access
of the lock's code is shown to keep the guarantee; entering ends with the lock held, in a state no two processes can be in; leaving gives
everything back and moves the counter on.  Any number of processes: a process is only ever considered against all the others at once."""
impl = load("dustgoggles.codex.implements")
locks = load("pydv.locks")
shm = load("pydv.shm")
ASSUMES = ["accesses to shared memory are atomic and the counter exists when a lock is used", "fewer than 2**40 acquisitions",
           "nobody but locks of this name touches its blocks; waiting is not given up (max_spins left unset)"]


def fresh(quiet=False):
    effects(raises=False)
    name = str_("lock_name")
    w = locks.interference(name, quiet)
    lock = impl.SlidingLock(name)
    locks.watch(lock)
    return w, lock


def after(w):
    """everyone else goes on"""
    w.others()


def ob_enter():
    """entering ends with the lock held"""
    w, lock = fresh()
    locks.given(w.c < 2 ** 40 - 2)
    used = lock.__enter__()
    after(w)
    ensure("enter.gives_the_lock", used is lock)
    ensure("enter.holds", w.holding())
    ensure("enter.knows", shm.at_least(lock.number, 0) and lock.acquired is True)
    ensure("enter.own_slot", w.own == shm.as_int(lock.number))


def ob_leave():
    """leaving gives the lock and the slot back, and moves the counter to it"""
    w, lock = fresh()
    n = int_("ticket")
    locks.given(n >= 1)
    locks.given(n < 2 ** 40)
    locks.claim(lock, n)
    lock.floor, lock.spins = int_("old_floor"), int_("spins")
    lock.acquired = True
    locks.given(w.holding())
    lock.__exit__(None, None, None)
    after(w)
    ensure("leave.slot_given_back", w.own is None)
    ensure("leave.lock_removed", not w.ownlock)
    ensure("leave.counter_moved", w.c >= shm.as_int(n))
    ensure("leave.ready_again", lock.marker is None and lock.lock is None and lock.acquired is False)


def ob_alone():
    """once the others have released it, a waiting process gets it at its next look"""
    w, lock = fresh(quiet=True)
    n, floor = int_("ticket"), int_("old_floor")
    locks.given(n >= 1)
    locks.claim(lock, n, locked=case("lock_placed"))
    locks.given(floor >= 0)
    locks.given(floor < n)
    lock.floor, lock.spins, lock.acquired = floor, int_("spins"), False
    w.forall(lambda k: z3.Implies(k != w.own, z3.Not(w.has(k))))
    ensure("alone.gets_it", lock._check_acquirement() is True)


def ob_alone_acquire():
    """... and acquiring then takes one look"""
    w, lock = fresh(quiet=True)
    n, floor = int_("ticket"), int_("old_floor")
    locks.given(n >= 1)
    locks.claim(lock, n, locked=False)
    locks.given(floor >= 0)
    locks.given(floor < n)
    lock.floor, lock.spins = floor, int_("spins")
    w.forall(lambda k: z3.Implies(k != w.own, z3.Not(w.has(k))))
    w.prompt = True
    lock.acquire()
    ensure("alone.acquired", lock.acquired is True)


def ob_ticket():
    """once nobody else changes anything, the first free slot found is kept"""
    w, lock = fresh(quiet=True)
    locks.given(w.c < 2 ** 40 - 2)
    lock.number, lock.spins = int_("old_number"), int_("spins")
    w.settled = True
    lock._renumber()
    ensure("ticket.above_the_counter", shm.as_int(lock.number) > w.c)


def ob_exclusion():
    """no two processes can hold the lock: each one's slot is above the counter, which has reached the one before, and slots are not shared"""
    c, m, n = int_("count"), int_("one"), int_("other")
    assume(m > c and n > c)
    assume(c >= m - 1 and c >= n - 1)
    ensure("exclusion.same_slot", m == n)


def ob_others_keep_the_counter_below():
    """a holder moving the counter leaves every other slot that has been above it above it"""
    c, mine, holder = int_("count"), int_("mine"), int_("holder")
    assume(mine > c)
    assume(holder > c and c >= holder - 1)
    assume(mine != holder)
    ensure("rely.above_stays_above", mine > holder)
    ensure("rely.counter_grows", holder >= c)


def ob_others_keep_freed_slots_passed():
    """giving up a slot the counter has reached, taking a free one and moving the counter up keep freed slots passed"""
    c, k, moved = int_("count"), int_("k"), int_("moved")
    has, ever = z3.Function("has", z3.IntSort(), z3.BoolSort()), z3.Function("ever", z3.IntSort(), z3.BoolSort())
    j = int_("any")
    locks.given(z3.Implies(z3.And(ever(j.t), z3.Not(has(j.t))), j.t <= c.t))
    locks.given(moved.t >= c.t)
    ensure("rely.freed.counter", z3.Implies(z3.And(ever(j.t), z3.Not(has(j.t))), j.t <= moved.t))
    ensure("rely.freed.taken", z3.Implies(z3.And(z3.Or(ever(j.t), j.t == k.t), z3.Not(z3.Or(has(j.t), j.t == k.t))), j.t <= c.t))
    ensure("rely.freed.given_up", z3.Implies(k.t <= c.t, z3.Implies(z3.And(ever(j.t), z3.Not(z3.And(has(j.t), j.t != k.t))), j.t <= c.t)))
