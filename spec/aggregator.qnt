// The price aggregator: oracles submit prices for token pairs; a round is published when enough
// distinct oracles have submitted within the round's window.
module rounds {
  import fixedpoint.* from "./fixedpoint"

  type Sub = { a: str, ts: int, px: int }              // a: pair, ts: the submission's own timestamp
  type Op = { k: str, u: str, l: List[Sub], w: List[str], n: int }
  type Stat = { acc: int, tot: int }
  type Feed = { px: int, ts: int, rd: int }
  type Agg = {
    now: int, paused: bool, count: int, status: str -> Stat,
    rounds: str -> Feed, first: str -> int, last: str -> int, subs: str -> (str -> int)
  }
  type R = { ok: bool, why: str, s: Agg, o: List[int] }

  pure val WINDOW: int = 1800      // a round must be completed within
  pure val MAXAGE: int = 30        // a submission may be this old
  pure val MAXLEN: int = 50
  pure val PAIRS: List[str] = ["EGLD-USD", "USDC-USD", "XOXNO-EGLD"]
  pure val ORACLES: List[str] = ["o1", "o2", "o3", "o4", "o5", "o6", "o7"]
  pure val PEOPLE: List[str] = ["owner", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "mallory"]
  pure val PSET: Set[str] = PAIRS.foldl(Set(), (k, x) => k.union(Set(x)))

  pure def okR(s: Agg): R = { ok: true, why: "", s: s, o: [] }
  pure def failR(s: Agg, w: str): R = { ok: false, why: w, s: s, o: [] }

  // the value with i values of the list before it in sorted order (equal values in any order)
  pure def ranked(l: List[int], i: int): int =
    l.foldl(0 - 1, (k, x) =>
      if (k >= 0) k
      else {
        val below = l.select(y => y < x).length()
        val upto = l.select(y => y <= x).length()
        if (below <= i and i < upto) x else k
      })
  pure def median(l: List[int]): int = {
    val n = l.length()
    if (n % 2 == 1) ranked(l, n / 2) else (ranked(l, n / 2 - 1) + ranked(l, n / 2)) / 2
  }
  pure def pending(s: Agg, a: str): str -> int = if (s.subs.keys().contains(a)) s.subs.get(a) else Map()
  pure def prices(m: str -> int): List[int] = ORACLES.select(u => m.keys().contains(u)).foldl([], (l, u) => l.append(m.get(u)))
  pure def validTs(s: Agg, ts: int): bool = ts <= s.now and s.now - ts <= MAXAGE
  pure def validCount(s: Agg, n: int): bool = n >= 1 and n <= MAXLEN and n <= s.status.keys().size()

  pure def submit1(s: Agg, u: str, a: str, px: int): Agg = {
    val old = pending(s, a)
    val stale = old.keys() != Set() and s.now > s.first.get(a) + WINDOW
    val m = if (stale) Map() else old
    val fresh = m.keys() == Set()
    val s1 = { ...s, first: if (fresh) s.first.put(a, s.now) else s.first, last: if (stale) s.last.put(a, s.now) else s.last }
    val taken = not(m.keys().contains(u))
    val m2 = if (taken) m.put(u, px) else m
    val rd = if (s.rounds.keys().contains(a)) s.rounds.get(a).rd + 1 else 0
    val done = taken and m2.keys().size() >= s.count
    val s2 =
      if (done) { ...s1, rounds: s1.rounds.put(a, { px: median(prices(m2)), ts: s.now, rd: rd }),
        first: drop(s1.first, a), last: drop(s1.last, a), subs: s1.subs.put(a, Map()) }
      else { ...s1, subs: s1.subs.put(a, m2), last: if (taken) s1.last.put(a, s.now) else s1.last }
    { ...s2, status: s2.status.set(u, { acc: s2.status.get(u).acc + (if (taken) 1 else 0), tot: s2.status.get(u).tot + 1 }) }
  }
  pure def drop(m: str -> int, a: str): str -> int = m.keys().exclude(Set(a)).mapBy(k => m.get(k))

  pure def exec0(s: Agg, o: Op): R =
    if (o.k == "submit" or o.k == "batch") {
      if (s.paused) failR(s, "paused")
      else if (not(s.status.keys().contains(o.u))) failR(s, "oracle")
      else o.l.foldl(okR(s), (r, q) =>
        if (not(r.ok)) r
        else if (not(validTs(s, q.ts))) failR(s, "timestamp")
        else okR(submit1(r.s, o.u, q.a, q.px)))
    }
    else if (o.k == "time") okR({ ...s, now: s.now + o.n })
    else if (o.k == "feed") {
      val a = o.w[0]
      if (s.paused) failR(s, "paused")
      else if (not(s.rounds.keys().contains(a))) failR(s, "nothing")
      else { val q = s.rounds.get(a)
        { ...okR(s), o: [q.rd, q.ts, q.px] } }
    }
    else if (o.k == "feeds") {
      if (s.paused) failR(s, "paused")
      else { ...okR(s), o: o.w.select(a => s.rounds.keys().contains(a)).foldl([], (l, a) =>
        l.concat([s.rounds.get(a).rd, s.rounds.get(a).ts, s.rounds.get(a).px])) }
    }
    else if (o.u != "owner") failR(s, "owner")
    else if (o.k == "pause") okR({ ...s, paused: true })
    else if (o.k == "unpause") okR({ ...s, paused: false })
    else if (o.k == "upgrade") okR({ ...s, paused: true })
    else if (o.k == "addOracles")
      okR({ ...s, status: o.w.foldl(s.status, (m, u) => if (m.keys().contains(u)) m else m.put(u, { acc: 0, tot: 0 })) })
    else if (o.k == "removeOracles") {
      val s1 = { ...s, status: s.status.keys().exclude(o.w.foldl(Set(), (k, u) => k.union(Set(u)))).mapBy(u => s.status.get(u)) }
      if (validCount(s1, o.n)) okR({ ...s1, count: o.n }) else failR(s, "count")
    }
    else if (o.k == "setCount") (if (validCount(s, o.n)) okR({ ...s, count: o.n }) else failR(s, "count"))
    else failR(s, "unknown")
  pure def exec(s: Agg, o: Op): R = {
    val r = exec0(s, o)
    if (r.ok) r else { ...r, s: s, o: [] }
  }

  // ---- the property --------------------------------------------------------------------
  pure def published(a: Agg, b: Agg, x: str): bool =
    b.rounds.keys().contains(x) and not(a.rounds.keys().contains(x) and a.rounds.get(x) == b.rounds.get(x))
  // a published price has enough distinct submissions of one window behind it and half of them on each side
  pure def sound(a: Agg, o: Op, b: Agg, x: str): bool = {
    val mine = o.l.select(q => q.a == x)
    val q = b.rounds.get(x)
    val old = if (pending(a, x).keys() != Set() and a.now <= a.first.get(x) + WINDOW) pending(a, x) else Map()
    // single submissions only; a batch may complete several rounds at a count of one
    val all_ = old.put(o.u, mine[0].px)
    val l = prices(all_)
    and {
      o.k == "submit" or o.k == "batch", a.status.keys().contains(o.u), q.ts == a.now,
      q.rd > (if (a.rounds.keys().contains(x)) a.rounds.get(x).rd else 0 - 1),
      mine.length() == 1 implies and {
        q.rd == (if (a.rounds.keys().contains(x)) a.rounds.get(x).rd + 1 else 0),
        not(old.keys().contains(o.u)), l.length() >= a.count,
        2 * l.select(y => y <= q.px).length() >= l.length() - (if (l.length() % 2 == 0) 0 else 0),
        2 * l.select(y => y >= q.px).length() >= l.length() - (if (l.length() % 2 == 0) 2 else 0)
      }
    }
  }
  pure def broken(a: Agg, o: Op, r: R): Set[str] = {
    val b = r.s
    val good = and {
      PSET.forall(x => published(a, b, x) implies sound(a, o, b, x)),
      b.rounds.keys().forall(x => b.rounds.get(x).ts <= b.now),
      a.rounds.keys().subseteq(b.rounds.keys()),
      b.count >= 1, b.count <= b.status.keys().size(), b.count <= MAXLEN,
      // pending submissions are within the window of their first one, or will be discarded
      b.subs.keys().forall(x => b.subs.get(x).keys() != Set() implies b.first.keys().contains(x)),
      b.status.keys().forall(u => b.status.get(u).acc <= b.status.get(u).tot),
      (r.ok and (o.k == "submit" or o.k == "batch")) implies (not(a.paused) and a.status.keys().contains(o.u)
        and o.l.select(q => q.ts > a.now or q.ts + MAXAGE < a.now).length() == 0)
    }
    val owner = (r.ok and a != b and o.k != "time" and o.k != "submit" and o.k != "batch") implies o.u == "owner"
    val idle = (a.paused and (o.k == "submit" or o.k == "batch" or o.k == "feed" or o.k == "feeds")) implies not(r.ok)
    Set(if (good) "" else "C19", if (owner) "" else "C10", if (idle) "" else "C09").exclude(Set(""))
  }

}

// the machine
module aggregator {
  import rounds.*

  // more oracles than may ever be required
  pure val MANY: List[str] = [
    "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8", "a9",
    "b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9",
    "c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9",
    "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
    "e0", "e1", "e2", "e3", "e4", "e5", "e6", "e7", "e8", "e9"]
  type Last = { op: Op, ok: bool, why: str, o: List[int], bad: Set[str] }
  var s: Agg
  var last: Last
  pure val op0: Op = { k: "noop", u: "", l: [], w: [], n: 0 }
  pure val start: Agg = {
    now: 1000000, paused: true, count: 3, status: Set("o1", "o2", "o3", "o4", "o5").mapBy(u => { acc: 0, tot: 0 }),
    rounds: Map(), first: Map(), last: Map(), subs: Map()
  }
  pure def pick(l: List[str], k: int): str = l[k % l.length()]
  pure def gSub(s0: Agg, u: str, x: int, y: int, z: int): Sub = {
    // an oracle mostly continues a round that is open
    val open = PAIRS.select(a => pending(s0, a).keys() != Set() and not(pending(s0, a).keys().contains(u)))
    val a = if (open != [] and x % 3 != 0) pick(open, x / 3) else pick(PAIRS, x)
    val ts = s0.now - (if (y % 12 == 0) 31 else if (y % 12 == 1) 30 else if (y % 12 == 2) 0 - 1 else if (y % 12 <= 5) y % 31 else 0)
    { a: a, ts: ts, px: if (z % 5 == 0) 1000 + z % 3 else 1 + z }
  }
  action step = {
    nondet i = oneOf(0.to(99))
    nondet c = oneOf(0.to(999))
    nondet x = oneOf(0.to(999))
    nondet y = oneOf(0.to(999))
    nondet z = oneOf(0.to(999999))
    nondet x2 = oneOf(0.to(999))
    nondet z2 = oneOf(0.to(999999))
    val who = if (c % 25 == 0) "mallory" else if (c % 25 == 1) "owner" else pick(ORACLES, c / 25)
    val adm = if (c % 10 == 0) "o1" else if (c % 10 == 1) "mallory" else "owner"
    // time moves on mostly a little, sometimes just to or past the end of a round
    val live = PAIRS.select(a => pending(s, a).keys() != Set())
    val edge = if (live == []) 60 else s.first.get(pick(live, x)) + WINDOW - s.now + (y % 3) - 1
    val op: Op =
      if (s.paused and i < 40) { ...op0, k: "unpause", u: adm }
      else if (i < 52) { ...op0, k: "submit", u: who, l: [gSub(s, who, x, y, z)] }
      else if (i < 62) { ...op0, k: "batch", u: who, l: [gSub(s, who, x, y, z), gSub(s, who, x2, y / 12 * 12 + 6, z2)] }
      else if (i < 72) { ...op0, k: "time", n: if (y % 3 == 0 and edge > 0) edge else 1 + y % 600 }
      else if (i < 78) { ...op0, k: "feed", u: who, w: [pick(PAIRS, x)] }
      else if (i < 81) { ...op0, k: "feeds", u: who, w: [pick(PAIRS, x), pick(PAIRS, y)] }
      else if (i == 84 and y % 6 == 0) { ...op0, k: "addOracles", u: adm, w: MANY }
      else if (i < 85) { ...op0, k: "addOracles", u: adm, w: [pick(ORACLES, x), pick(ORACLES, y)] }
      else if (i < 89) { ...op0, k: "removeOracles", u: adm, w: [pick(ORACLES, x)], n: y % 5 }
      else if (i < 95) { ...op0, k: "setCount", u: adm, n: if (s.status.keys().size() > 40 and x % 3 != 0) 49 + y % 5 else if (y % 5 == 0) 0 else if (y % 5 == 1) s.status.keys().size() + x % 2 else 2 + y % 3 }
      else if (i < 97) { ...op0, k: "pause", u: adm }
      else if (i < 98) { ...op0, k: "upgrade", u: "owner" }
      else { ...op0, k: "unpause", u: adm }
    val e = exec(s, op)
    all { s' = e.s, last' = { op: op, ok: e.ok, why: e.why, o: e.o, bad: broken(s, op, e) } }
  }
  action init = all { s' = start, last' = { op: op0, ok: true, why: "", o: [], bad: Set() } }
  val Inv = last.bad == Set()

  run medianTest = all {
    assert(median([5]) == 5), assert(median([9, 1]) == 5), assert(median([3, 1, 2]) == 2), assert(median([4, 4, 1, 9]) == 4), assert(median([2, 1, 2, 1]) == 1)
  }
}
