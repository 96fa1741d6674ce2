pub mod pool_theory {
    use vstd::prelude::*;
    use pool::*;
    use netx::SocketAddr;
    use timex::*;
    use chanx::oneshot;
    use futures::FutSpec;
    verus! {
    /// The pool as data: idle connections by release number, the next release number, the ends of suspensions.
    pub struct PoolV {
        pub size: nat,
        pub idle: Map<u64, (SocketAddr, TcpConnection)>,
        pub next: u64,
        pub black: Map<SocketAddr, SystemTime>,
        pub suspension: nat,
    }
    /// A new pool. Where release numbers start does not matter.
    pub open spec fn fresh(a: PoolV, size: nat, suspension: nat) -> bool {
        a.size == size && a.idle =~= Map::empty() && a.black =~= Map::empty() && a.suspension == suspension
    }
    /// equal as data
    pub open spec fn same(a: PoolV, b: PoolV) -> bool {
        a.size == b.size && a.idle =~= b.idle && a.next == b.next && a.black =~= b.black && a.suspension == b.suspension
    }
    /// `b` keeps of `a`'s idle connections the latest ones.
    pub open spec fn part_trimmed(a: PoolV, b: PoolV) -> bool {
        &&& same(b, PoolV { idle: b.idle, ..a })
        &&& forall|n: u64| #[trigger] b.idle.dom().contains(n) ==> a.idle.dom().contains(n) && b.idle[n] == a.idle[n]
        &&& forall|d: u64, k: u64| a.idle.dom().contains(d) && !(#[trigger] b.idle.dom().contains(d)) && #[trigger] b.idle.dom().contains(k) ==> d < k
        &&& b.idle.dom().finite()
        &&& b.idle.dom().len() <= a.idle.dom().len()
        &&& a.idle.dom().len() > b.idle.dom().len() ==> b.idle.dom().len() >= a.size
    }
    pub open spec fn min(a: nat, b: nat) -> nat { if a < b { a } else { b } }
    /// ... as many as fit.
    pub open spec fn trimmed(a: PoolV, b: PoolV) -> bool {
        part_trimmed(a, b) && b.idle.dom().len() == min(a.size, a.idle.dom().len())
    }
    /// A release under the number `n`, above all earlier ones.
    pub open spec fn released_as(a: PoolV, addr: SocketAddr, c: TcpConnection, n: u64, b: PoolV) -> bool {
        a.next <= n < b.next && trimmed(PoolV { idle: a.idle.insert(n, (addr, c)), next: b.next, ..a }, b)
    }
    /// A pool without room may take no notice of a release.
    pub open spec fn released_away(a: PoolV, b: PoolV) -> bool {
        a.size == 0 && a.next <= b.next && same(b, PoolV { next: b.next, ..a })
    }
    pub open spec fn released(a: PoolV, addr: SocketAddr, c: TcpConnection, b: PoolV) -> bool {
        released_away(a, b) || exists|n: u64| #[trigger] released_as(a, addr, c, n, b)
    }
    /// What an acquisition hands out: an idle connection of the address if there is one, otherwise a new attempt.
    pub open spec fn acquired(a: PoolV, addr: SocketAddr, f: PooledConnection, b: PoolV, limit: Duration, cmd: int) -> bool {
        f.live() && ((exists|n: u64| #[trigger] a.idle.dom().contains(n) && a.idle[n].0 == addr && f.is_idle(a.idle[n].1) && same(b, PoolV { idle: a.idle.remove(n), ..a }))
        || ((forall|n: u64| #[trigger] a.idle.dom().contains(n) ==> a.idle[n].0 != addr) && f.connects(addr, limit, cmd) && same(b, a)))
    }
    pub open spec fn answered(a: PoolV, addr: SocketAddr, chan: int, b: PoolV, limit: Duration, cmd: int) -> bool {
        exists|f: PooledConnection| #[trigger] oneshot::sent(chan, f) && f.leads_to(addr) && answer(a, addr, f, b, limit, cmd)
    }
    pub open spec fn answer(a: PoolV, addr: SocketAddr, f: PooledConnection, b: PoolV, limit: Duration, cmd: int) -> bool {
        if a.black.dom().contains(addr) { exists|now: SystemTime| #[trigger] clock_read(now) && answer_at(a, addr, f, b, limit, cmd, now@) }
        else { answer_at(a, addr, f, b, limit, cmd, 0) }
    }
    pub open spec fn answer_at(a: PoolV, addr: SocketAddr, f: PooledConnection, b: PoolV, limit: Duration, cmd: int, now: int) -> bool {
        if a.black.dom().contains(addr) {
            if a.black[addr]@ > now { f.refuses() && f.live() && same(b, a) }
            else { acquired(PoolV { black: a.black.remove(addr), ..a }, addr, f, b, limit, cmd) }
        } else { acquired(a, addr, f, b, limit, cmd) }
    }
    /// The address is suspended from the time the failure is recorded (or as long as times can tell).
    pub open spec fn suspended(a: PoolV, addr: SocketAddr, b: PoolV) -> bool {
        exists|now: SystemTime| #[trigger] clock_read(now) && suspended_at(a, addr, b, now@)
    }
    pub open spec fn suspended_at(a: PoolV, addr: SocketAddr, b: PoolV, now: int) -> bool {
        &&& b.black.dom().contains(addr)
        &&& same(b, PoolV { black: a.black.insert(addr, b.black[addr]), ..a })
        &&& ends(now, a.suspension, b.black[addr]@)
        &&& now + 4_294_967_296_000_000_000int <= last_time()
    }
    /// when a suspension ends; one that no time can express lasts a lifetime at least
    pub open spec fn ends(now: int, suspension: nat, until: int) -> bool {
        if now + suspension <= last_time() { until == now + suspension } else { until >= now + 3_000_000_000_000_000_000 }
    }
    }
}
/// Histories of a pool: what holds after any sequence of commands.
pub mod pool_history {
    use vstd::prelude::*;
    use pool::*;
    use pool_theory::*;
    use netx::SocketAddr;
    use timex::*;
    use futures::FutSpec;
    use chanx::{oneshot, oneshot::Msg};
    verus! {
    /// A command the pool has handled, with the answer it gave and the clock it read.
    pub enum Ev {
        Acquire { addr: SocketAddr, f: PooledConnection, now: int },
        Release { addr: SocketAddr, c: TcpConnection },
        Fail { addr: SocketAddr, now: int },
    }
    pub open spec fn step(a: PoolV, ev: Ev, b: PoolV, limit: Duration, cmd: int) -> bool {
        match ev {
            Ev::Acquire { addr, f, now } => answer_at(a, addr, f, b, limit, cmd, now) && f.leads_to(addr),
            Ev::Release { addr, c } => a.next < u64::MAX && released(a, addr, c, b),
            Ev::Fail { addr, now } => suspended_at(a, addr, b, now),
        }
    }
    /// The states a pool goes through while it handles commands.
    pub open spec fn ran(st: Seq<PoolV>, h: Seq<Ev>, limit: Duration, cmd: int) -> bool {
        &&& st.len() == h.len() + 1
        &&& forall|i: int| 0 <= i < h.len() ==> step(st[i], #[trigger] h[i], st[i + 1], limit, cmd)
    }
    pub open spec fn reaches(a: PoolV, b: PoolV, limit: Duration, cmd: int) -> bool {
        exists|st: Seq<PoolV>, h: Seq<Ev>| #[trigger] ran(st, h, limit, cmd) && st[0] == a && st.last() == b
    }
    pub proof fn lemma_reach_none(a: PoolV, limit: Duration, cmd: int) ensures reaches(a, a, limit, cmd) {
        assert(ran(seq![a], Seq::<Ev>::empty(), limit, cmd));
    }
    pub proof fn lemma_reach(a: PoolV, b: PoolV, ev: Ev, c: PoolV, limit: Duration, cmd: int)
        requires reaches(a, b, limit, cmd), step(b, ev, c, limit, cmd)
        ensures reaches(a, c, limit, cmd)
    {
        let (st, h) = choose|st: Seq<PoolV>, h: Seq<Ev>| #[trigger] ran(st, h, limit, cmd) && st[0] == a && st.last() == b;
        let st2 = st.push(c);
        let h2 = h.push(ev);
        assert forall|i: int| 0 <= i < h2.len() implies step(st2[i], #[trigger] h2[i], st2[i + 1], limit, cmd) by {
            if i < h.len() { assert(h2[i] == h[i]); } else { assert(st2[i] == b); }
        }
        assert(ran(st2, h2, limit, cmd));
    }
    /// every release number is below the next one
    pub open spec fn wf(a: PoolV) -> bool {
        &&& forall|n: u64| #[trigger] a.idle.dom().contains(n) ==> n < a.next
        &&& a.idle.dom().finite()
        &&& a.idle.dom().len() <= a.size
    }
    pub open spec fn oldest(a: PoolV, d: u64) -> bool {
        a.idle.dom().contains(d) && forall|k: u64| #[trigger] a.idle.dom().contains(k) ==> d <= k
    }
    /// What a release does to a pool within its size: the oldest idle connection goes when there is no room.
    pub open spec fn kept_latest(a: PoolV, addr: SocketAddr, c: TcpConnection, b: PoolV) -> bool {
        if a.size == 0 { b.idle =~= Map::empty() } else { exists|n: u64| #[trigger] kept_as(a, addr, c, n, b) }
    }
    pub open spec fn kept_as(a: PoolV, addr: SocketAddr, c: TcpConnection, n: u64, b: PoolV) -> bool {
        let all = a.idle.insert(n, (addr, c));
        &&& !a.idle.dom().contains(n)
        &&& forall|k: u64| #[trigger] a.idle.dom().contains(k) ==> k < n
        &&& if a.idle.dom().len() < a.size { b.idle =~= all }
            else { exists|d: u64| #[trigger] oldest(a, d) && b.idle =~= all.remove(d) && b.idle.dom().contains(n) }
    }
    pub proof fn lemma_release(a: PoolV, addr: SocketAddr, c: TcpConnection, b: PoolV)
        requires wf(a), released(a, addr, c, b), a.next < u64::MAX
        ensures wf(b), kept_latest(a, addr, c, b)
    {
        if released_away(a, b) {
            assert(a.idle.dom() =~= Set::empty());
        } else {
            lemma_release_as(a, addr, c, choose|n: u64| #[trigger] released_as(a, addr, c, n, b), b);
        }
    }
    pub proof fn lemma_release_as(a: PoolV, addr: SocketAddr, c: TcpConnection, n: u64, b: PoolV)
        requires wf(a), released_as(a, addr, c, n, b)
        ensures wf(b), kept_latest(a, addr, c, b)
    {
        let m = PoolV { idle: a.idle.insert(n, (addr, c)), next: b.next, ..a };
        assert(m.idle.dom() =~= a.idle.dom().insert(n));
        assert(!a.idle.dom().contains(n));
        assert(m.idle.dom().len() == a.idle.dom().len() + 1);
        if a.size == 0 {
            assert(b.idle.dom().len() == 0);
            assert(b.idle.dom() =~= Set::empty());
        } else if a.idle.dom().len() < a.size {
            assert(b.idle.dom().subset_of(m.idle.dom()));
            vstd::set_lib::lemma_subset_equality(b.idle.dom(), m.idle.dom());
        } else {
            let gone = m.idle.dom().difference(b.idle.dom());
            assert(b.idle.dom().subset_of(m.idle.dom()));
            assert(b.idle.dom().intersect(m.idle.dom()) =~= b.idle.dom());
            assert(gone + b.idle.dom() =~= m.idle.dom());
            vstd::set_lib::lemma_set_disjoint_lens(gone, b.idle.dom());
            assert(gone.len() == 1);
            let d = gone.choose();
            assert(gone.remove(d).len() == 0);
            assert(gone.remove(d) =~= Set::empty());
            assert forall|e: u64| #[trigger] gone.contains(e) implies e == d by { if e != d { assert(gone.remove(d).contains(e)); } }
            assert(b.idle.dom().len() == a.size);
            let k = b.idle.dom().choose();
            assert(b.idle.dom().contains(k));
            assert(d < k);
            assert forall|k: u64| #[trigger] a.idle.dom().contains(k) implies d <= k by {
                if k != d { assert(m.idle.dom().contains(k)); assert(!gone.contains(k)); assert(b.idle.dom().contains(k)); }
            }
            assert(m.idle.dom().contains(k));
            assert(d != n);
            assert(oldest(a, d));
            assert(!gone.contains(n));
            assert(b.idle =~= m.idle.remove(d));
        }
        assert forall|k: u64| #[trigger] b.idle.dom().contains(k) implies k < b.next by { assert(m.idle.dom().contains(k)); }
        if a.size > 0 { assert(kept_as(a, addr, c, n, b)); }
    }
    pub proof fn lemma_wf(st: Seq<PoolV>, h: Seq<Ev>, limit: Duration, cmd: int, i: int)
        requires ran(st, h, limit, cmd), wf(st[0]), 0 <= i < st.len()
        ensures wf(st[i]), st[i].size == st[0].size, st[i].suspension == st[0].suspension
        decreases i
    {
        if i > 0 {
            lemma_wf(st, h, limit, cmd, i - 1);
            let a = st[i - 1];
            let b = st[i];
            match h[i - 1] {
                Ev::Acquire { addr, f, now } => {
                    if a.black.dom().contains(addr) && a.black[addr]@ > now {} else {
                        let z = if a.black.dom().contains(addr) { PoolV { black: a.black.remove(addr), ..a } } else { a };
                        assert(acquired(z, addr, f, b, limit, cmd));
                        if exists|n: u64| #[trigger] z.idle.dom().contains(n) && z.idle[n].0 == addr && f.is_idle(z.idle[n].1) && same(b, PoolV { idle: z.idle.remove(n), ..z }) {
                            let n = choose|n: u64| #[trigger] z.idle.dom().contains(n) && z.idle[n].0 == addr && f.is_idle(z.idle[n].1) && same(b, PoolV { idle: z.idle.remove(n), ..z });
                            assert(b.idle.dom() =~= a.idle.dom().remove(n));
                        }
                    }
                }
                Ev::Release { addr, c } => { lemma_release(a, addr, c, b); }
                Ev::Fail { addr, now } => {}
            }
        }
    }
    /// C09. After any history the idle connections are at most the pool's size, and a release without room drops the oldest.
    pub proof fn theorem_c09(size: nat, suspension: nat, st: Seq<PoolV>, h: Seq<Ev>, limit: Duration, cmd: int)
        requires ran(st, h, limit, cmd), fresh(st[0], size, suspension)
        ensures
            forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).idle.dom().len() <= size,
            forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i] matches Ev::Release { addr, c } ==> kept_latest(st[i], addr, c, st[i + 1]))
    {
        assert forall|i: int| 0 <= i < st.len() implies (#[trigger] st[i]).idle.dom().len() <= size by { lemma_wf(st, h, limit, cmd, i); }
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i] matches Ev::Release { addr, c } ==> kept_latest(st[i], addr, c, st[i + 1])) by {
            lemma_wf(st, h, limit, cmd, i);
            if let Ev::Release { addr, c } = h[i] { lemma_release(st[i], addr, c, st[i + 1]); }
        }
    }

    /// The answer at `i` is the idle connection released as number `n`.
    pub open spec fn hands(st: Seq<PoolV>, h: Seq<Ev>, i: int, n: u64) -> bool {
        &&& h[i] is Acquire
        &&& st[i].idle.dom().contains(n) && !st[i + 1].idle.dom().contains(n)
    }
    /// connection number `n` of the state was released for its address
    pub open spec fn origin(st: Seq<PoolV>, h: Seq<Ev>, j: int, n: u64, addr: SocketAddr, c: TcpConnection) -> bool {
        h[j] == (Ev::Release { addr, c }) && released_as(st[j], addr, c, n, st[j + 1])
    }
    pub proof fn lemma_acquire(a: PoolV, addr: SocketAddr, f: PooledConnection, b: PoolV, limit: Duration, cmd: int, now: int)
        requires answer_at(a, addr, f, b, limit, cmd, now)
        ensures
            b.next == a.next, b.idle.submap_of(a.idle),
            forall|n: u64| a.idle.dom().contains(n) && !#[trigger] b.idle.dom().contains(n) ==> a.idle[n].0 == addr && f.is_idle(a.idle[n].1),
            forall|c: TcpConnection| #[trigger] f.is_idle(c) ==> exists|n: u64| #[trigger] a.idle.dom().contains(n) && !b.idle.dom().contains(n) && a.idle[n] == (addr, c),
            (exists|n: u64| #[trigger] a.idle.dom().contains(n) && a.idle[n].0 == addr) && !f.refuses() ==> f.phase is A,
    {
        if a.black.dom().contains(addr) && a.black[addr]@ > now {} else {
            let z = if a.black.dom().contains(addr) { PoolV { black: a.black.remove(addr), ..a } } else { a };
            assert(acquired(z, addr, f, b, limit, cmd));
            if exists|n: u64| #[trigger] z.idle.dom().contains(n) && z.idle[n].0 == addr && f.is_idle(z.idle[n].1) && same(b, PoolV { idle: z.idle.remove(n), ..z }) {
                let n = choose|n: u64| #[trigger] z.idle.dom().contains(n) && z.idle[n].0 == addr && f.is_idle(z.idle[n].1) && same(b, PoolV { idle: z.idle.remove(n), ..z });
                assert(a.idle.dom().contains(n) && !b.idle.dom().contains(n));
            }
        }
    }
    pub proof fn lemma_origin(st: Seq<PoolV>, h: Seq<Ev>, limit: Duration, cmd: int, i: int, n: u64) -> (j: int)
        requires ran(st, h, limit, cmd), wf(st[0]), st[0].idle.dom().len() == 0, 0 <= i < st.len(), st[i].idle.dom().contains(n)
        ensures
            0 <= j < i, origin(st, h, j, n, st[i].idle[n].0, st[i].idle[n].1),
            forall|k: int| j < k <= i ==> #[trigger] st[k].idle.dom().contains(n),
            forall|k: int| 0 <= k <= j ==> !(#[trigger] st[k].idle.dom().contains(n)),
        decreases i
    {
        assert(st[0].idle.dom() =~= Set::empty());
        let a = st[i - 1];
        let b = st[i];
        lemma_wf(st, h, limit, cmd, i - 1);
        if a.idle.dom().contains(n) {
            let j = lemma_origin(st, h, limit, cmd, i - 1, n);
            assert(step(st[i - 1], h[i - 1], st[i], limit, cmd));
            match h[i - 1] {
                Ev::Acquire { addr, f, now } => { lemma_acquire(a, addr, f, b, limit, cmd, now); }
                _ => { assert(b.idle.contains_key(n)); }
            }
            assert(b.idle.contains_key(n) && a.idle.contains_key(n));
            assert(b.idle[n] == a.idle[n]);
            j
        } else {
            assert(step(st[i - 1], h[i - 1], st[i], limit, cmd));
            match h[i - 1] {
                Ev::Acquire { addr, f, now } => { lemma_acquire(a, addr, f, b, limit, cmd, now); }
                _ => {}
            }
            assert(h[i - 1] is Release);
            assert(b.idle.contains_key(n));
            if let Ev::Release { addr, c } = h[i - 1] {
                let m = choose|m: u64| #[trigger] released_as(a, addr, c, m, b);
                assert(released_as(a, addr, c, m, b));
                assert(b.idle.dom().contains(n));
                assert(m == n);
                assert(b.idle[n] == (addr, c));
            }
            assert(a.next <= n);
            assert forall|k: int| 0 <= k <= i - 1 implies !(#[trigger] st[k].idle.dom().contains(n)) by {
                lemma_next(st, h, limit, cmd, k, i - 1);
                lemma_wf(st, h, limit, cmd, k);
            }
            i - 1
        }
    }
    pub proof fn lemma_next(st: Seq<PoolV>, h: Seq<Ev>, limit: Duration, cmd: int, k: int, i: int)
        requires ran(st, h, limit, cmd), wf(st[0]), 0 <= k <= i < st.len()
        ensures st[k].next <= st[i].next
        decreases i
    {
        if k < i {
            lemma_next(st, h, limit, cmd, k, i - 1);
            assert(step(st[i - 1], h[i - 1], st[i], limit, cmd));
            match h[i - 1] {
                Ev::Acquire { addr, f, now } => { lemma_acquire(st[i - 1], addr, f, st[i], limit, cmd, now); }
                _ => {}
            }
        }
    }
    /// C10. What is handed out as idle was released for the asked address before and is handed out this once; an idle
    /// connection of the address is used when there is one; whatever is handed out leads to the asked address.
    pub proof fn theorem_c10(size: nat, suspension: nat, st: Seq<PoolV>, h: Seq<Ev>, limit: Duration, cmd: int)
        requires ran(st, h, limit, cmd), fresh(st[0], size, suspension)
        ensures
            forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i] matches Ev::Acquire { addr, f, now } ==> f.leads_to(addr)),
            forall|i: int, c: TcpConnection| 0 <= i < h.len() && h[i] is Acquire && #[trigger] h[i]->Acquire_f.is_idle(c) ==>
                exists|n: u64, j: int| #[trigger] hands(st, h, i, n) && 0 <= j < i && #[trigger] origin(st, h, j, n, h[i]->Acquire_addr, c),
            forall|i: int, k: int, n: u64| 0 <= i < k < h.len() && #[trigger] hands(st, h, i, n) ==> !#[trigger] hands(st, h, k, n),
            forall|i: int, n: u64| 0 <= i < h.len() ==> (h[i] matches Ev::Acquire { addr, f, now } ==> (#[trigger] st[i].idle.dom().contains(n) && st[i].idle[n].0 == addr ==> f.phase is A)),
    {
        assert(st[0].idle.dom() =~= Set::empty());
        assert forall|i: int, c: TcpConnection| 0 <= i < h.len() && h[i] is Acquire && #[trigger] h[i]->Acquire_f.is_idle(c) implies
                exists|n: u64, j: int| #[trigger] hands(st, h, i, n) && 0 <= j < i && #[trigger] origin(st, h, j, n, h[i]->Acquire_addr, c) by {
            if let Ev::Acquire { addr, f, now } = h[i] {
                if f.is_idle(c) {
                    lemma_acquire(st[i], addr, f, st[i + 1], limit, cmd, now);
                    let n = choose|n: u64| #[trigger] st[i].idle.dom().contains(n) && !st[i + 1].idle.dom().contains(n) && st[i].idle[n] == (addr, c);
                    let j = lemma_origin(st, h, limit, cmd, i, n);
                    assert(hands(st, h, i, n) && origin(st, h, j, n, addr, c));
                }
            }
        }
        assert forall|i: int, k: int, n: u64| 0 <= i < k < h.len() && #[trigger] hands(st, h, i, n) implies !#[trigger] hands(st, h, k, n) by {
            if hands(st, h, k, n) {
                let j = lemma_origin(st, h, limit, cmd, k, n);
                if j < i + 1 { assert(st[i + 1].idle.dom().contains(n)); } else { assert(!st[i].idle.dom().contains(n)); }
            }
        }
        assert forall|i: int, n: u64| 0 <= i < h.len() implies (h[i] matches Ev::Acquire { addr, f, now } ==> (#[trigger] st[i].idle.dom().contains(n) && st[i].idle[n].0 == addr ==> f.phase is A)) by {
            assert(step(st[i], h[i], st[i + 1], limit, cmd));
            if let Ev::Acquire { addr, f, now } = h[i] { lemma_acquire(st[i], addr, f, st[i + 1], limit, cmd, now); }
        }
    }

    pub open spec fn time(ev: Ev) -> int { match ev { Ev::Acquire { now, .. } => now, Ev::Fail { now, .. } => now, _ => 0 } }
    /// the clock does not go back
    pub open spec fn clock_ok(h: Seq<Ev>) -> bool {
        forall|i: int, k: int| 0 <= i < k < h.len() && !(#[trigger] h[i] is Release) && !(#[trigger] h[k] is Release) ==> time(h[i]) <= time(h[k])
    }
    /// The suspension recorded for an address stems from a failure of that address.
    pub proof fn lemma_black(st: Seq<PoolV>, h: Seq<Ev>, limit: Duration, cmd: int, i: int, addr: SocketAddr) -> (j: int)
        requires ran(st, h, limit, cmd), wf(st[0]), st[0].black =~= Map::empty(), 0 <= i < st.len(), st[i].black.dom().contains(addr)
        ensures 0 <= j < i, h[j] matches Ev::Fail { addr: x, now } && x == addr && ends(now, st[0].suspension, st[i].black[addr]@)
        decreases i
    {
        assert(step(st[i - 1], h[i - 1], st[i], limit, cmd));
        lemma_wf(st, h, limit, cmd, i - 1);
        if h[i - 1] is Fail && h[i - 1]->Fail_addr == addr { i - 1 } else {
            assert(st[i - 1].black.dom().contains(addr) && st[i - 1].black[addr] == st[i].black[addr]);
            lemma_black(st, h, limit, cmd, i - 1, addr)
        }
    }
    /// ... and lasts as long as the clock has not passed its end.
    pub proof fn lemma_lasts(st: Seq<PoolV>, h: Seq<Ev>, limit: Duration, cmd: int, j: int, i: int, addr: SocketAddr, t: int, now: int)
        requires
            ran(st, h, limit, cmd), wf(st[0]), clock_ok(h), 0 <= j < i <= h.len(), h[j] == (Ev::Fail { addr, now: t }),
            st[0].suspension <= 3_000_000_000_000_000_000, now < t + st[0].suspension,
            forall|k: int| j < k < i && !(#[trigger] h[k] is Release) ==> time(h[k]) <= now,
        ensures st[i].black.dom().contains(addr), st[i].black[addr]@ >= t + st[0].suspension
        decreases i
    {
        assert(step(st[i - 1], h[i - 1], st[i], limit, cmd));
        lemma_wf(st, h, limit, cmd, i - 1);
        if i - 1 > j {
            lemma_lasts(st, h, limit, cmd, j, i - 1, addr, t, now);
            if h[i - 1] is Fail { assert(time(h[j]) <= time(h[i - 1])); }
        }
    }
    /// C11. Within the configured time after a failure every acquisition of that address is refused and changes nothing;
    /// without such a failure it proceeds normally (an idle connection, or a new attempt).
    pub proof fn theorem_c11(size: nat, suspension: nat, st: Seq<PoolV>, h: Seq<Ev>, limit: Duration, cmd: int)
        requires ran(st, h, limit, cmd), fresh(st[0], size, suspension), clock_ok(h), suspension <= 3_000_000_000_000_000_000
        ensures
            forall|j: int, i: int| 0 <= j < i < h.len() ==> (#[trigger] h[j] matches Ev::Fail { addr: x, now: t } ==> (#[trigger] h[i] matches Ev::Acquire { addr, f, now } ==>
                (addr == x && now < t + suspension ==> f.refuses() && same(st[i + 1], st[i])))),
            forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i] matches Ev::Acquire { addr, f, now } ==>
                ((forall|j: int| 0 <= j < i ==> (#[trigger] h[j] matches Ev::Fail { addr: x, now: t } ==> x != addr || t + suspension <= now))
                    ==> f.phase is B && f.connects(addr, limit, cmd) || exists|c: TcpConnection| f.is_idle(c)))
    {
        assert(st[0].idle.dom() =~= Set::empty());
        assert(st[0].black =~= Map::empty());
        assert forall|j: int, i: int| 0 <= j < i < h.len() implies (#[trigger] h[j] matches Ev::Fail { addr: x, now: t } ==> (#[trigger] h[i] matches Ev::Acquire { addr, f, now } ==>
                (addr == x && now < t + suspension ==> f.refuses() && same(st[i + 1], st[i])))) by {
            if let Ev::Fail { addr: x, now: t } = h[j] {
                if let Ev::Acquire { addr, f, now } = h[i] {
                    if addr == x && now < t + suspension {
                        assert(step(st[i], h[i], st[i + 1], limit, cmd));
                        assert forall|k: int| j < k < i && !(#[trigger] h[k] is Release) implies time(h[k]) <= now by { assert(time(h[k]) <= time(h[i])); }
                        lemma_lasts(st, h, limit, cmd, j, i, addr, t, now);
                    }
                }
            }
        }
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i] matches Ev::Acquire { addr, f, now } ==>
                ((forall|j: int| 0 <= j < i ==> (#[trigger] h[j] matches Ev::Fail { addr: x, now: t } ==> x != addr || t + suspension <= now))
                    ==> f.phase is B && f.connects(addr, limit, cmd) || exists|c: TcpConnection| f.is_idle(c))) by {
            if let Ev::Acquire { addr, f, now } = h[i] {
                assert(step(st[i], h[i], st[i + 1], limit, cmd));
                if st[i].black.dom().contains(addr) {
                    let j = lemma_black(st, h, limit, cmd, i, addr);
                    assert(step(st[j], h[j], st[j + 1], limit, cmd));
                    lemma_wf(st, h, limit, cmd, j);
                }
            }
        }
    }
    /// The pool's own handling of a command is such a step.
    pub fn drive_command(pool: &mut RpcClientPool, command: Command) -> (ev: Ghost<Ev>)
        requires old(pool).inv(), old(pool).seq_no < u64::MAX, command.msg_ok(old(pool).command_rx.chan()), command.settles()
        ensures final(pool).inv(), step(old(pool).pv(), ev@, final(pool).pv(), old(pool).connect_timeout, old(pool).command_tx.chan())
    {
        let ghost a = pool.pv();
        let ghost limit = pool.connect_timeout;
        let ghost cmd = pool.command_tx.chan();
        let ghost c = command;
        pool.handle_command(command);
        let ghost b = pool.pv();
        proof { lemma_event(c, a, b, limit, cmd); }
        Ghost(choose|ev: Ev| step(a, ev, b, limit, cmd))
    }
    /// what handling a command ensures
    pub open spec fn handled(c: Command, a: PoolV, b: PoolV, limit: Duration, cmd: int) -> bool {
        match c {
            Command::AcquireConnection { addr, reply } => answered(a, addr, reply.chan(), b, limit, cmd),
            Command::ReleaseConnection { addr, connection } => a.next < u64::MAX && released(a, addr, connection, b),
            Command::AddToBlacklist { addr } => suspended(a, addr, b),
        }
    }
    pub open spec fn moves(a: PoolV, b: PoolV, limit: Duration, cmd: int) -> bool { exists|ev: Ev| #[trigger] step(a, ev, b, limit, cmd) }
    pub broadcast proof fn lemma_event(c: Command, a: PoolV, b: PoolV, limit: Duration, cmd: int)
        requires #[trigger] handled(c, a, b, limit, cmd)
        ensures moves(a, b, limit, cmd)
    {
        match c {
            Command::AcquireConnection { addr, reply } => {
                let f = choose|f: PooledConnection| #[trigger] oneshot::sent(reply.chan(), f) && f.leads_to(addr) && answer(a, addr, f, b, limit, cmd);
                if a.black.dom().contains(addr) {
                    let now = choose|now: SystemTime| #[trigger] clock_read(now) && answer_at(a, addr, f, b, limit, cmd, now@);
                    assert(step(a, Ev::Acquire { addr, f, now: now@ }, b, limit, cmd));
                } else {
                    assert(step(a, Ev::Acquire { addr, f, now: 0 }, b, limit, cmd));
                }
            }
            Command::ReleaseConnection { addr, connection } => { assert(step(a, Ev::Release { addr, c: connection }, b, limit, cmd)); }
            Command::AddToBlacklist { addr } => {
                let now = choose|now: SystemTime| #[trigger] clock_read(now) && suspended_at(a, addr, b, now@);
                assert(step(a, Ev::Fail { addr, now: now@ }, b, limit, cmd));
            }
        }
    }
    }
}
