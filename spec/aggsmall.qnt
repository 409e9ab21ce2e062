// The aggregator's rounds explored exhaustively on a small scale: one pair, four oracles, three prices, and times around the
// window's edge.  `mine` is an account of the submissions kept apart from the aggregator's own bookkeeping.
module aggsmall {
  import rounds.* from "./aggregator"

  var z: Agg
  var mine: Set[{ u: str, at: int, px: int }]   // submissions accepted since the last published round
  var fine: bool                                // the step taken last was as it should be

  pure val A: str = "EGLD-USD"
  pure val SMALL: Set[str] = Set("o1", "o2", "o3", "o4")
  pure def begin(n: int): Agg = { now: T, paused: false, count: n, status: SMALL.mapBy(u => { acc: 0, tot: 0 }), rounds: Map(), first: Map(), last: Map(), subs: Map() }
  // enough distinct oracles, all within one window, and the price in the middle of theirs
  pure def right(from: Set[{ u: str, at: int, px: int }], n: int, now: int, px: int): bool = and {
    from.size() >= n,
    from.forall(x => from.forall(y => x.u == y.u implies x == y)),
    from.forall(x => now - x.at <= WINDOW),
    2 * from.filter(x => x.px <= px).size() >= from.size(),
    2 * from.filter(x => x.px > px).size() <= from.size(),
    if (from.size() % 2 == 1) from.exists(x => x.px == px)
    else from.exists(x => from.exists(y => x != y and x.px <= y.px and px == (x.px + y.px) / 2
      and from.exclude(Set(x, y)).filter(e => e.px <= x.px).size() >= from.size() / 2 - 1
      and from.exclude(Set(x, y)).filter(e => e.px >= y.px).size() >= from.size() / 2 - 1))
  }
  // The aggregator looks at no time but through differences, and at no round but the last: times are kept as if it were always
  // T, ages beyond the window are all the same, and what plays no part in later steps is dropped.
  pure val T: int = 10000
  pure def aged(at: int, n: int): int = if (at - n < T - WINDOW - 1) T - WINDOW - 1 else at - n
  pure def canon(s: Agg, n: int): Agg =
    { ...s, now: T, first: s.first.keys().mapBy(k => aged(s.first.get(k), n)), last: Map(), rounds: Map(),
      status: s.status.keys().mapBy(x => { acc: 0, tot: 0 }) }
  action send(u: str, px: int): bool = {
    val r = exec(z, { k: "submit", u: u, l: [{ a: A, ts: z.now, px: px }], w: [], n: 0 })
    val out = r.s.rounds != z.rounds
    val old = mine.exists(x => z.now - x.at > WINDOW)      // the round in progress began too long ago
    val live = if (old) Set() else mine
    val took = not(live.exists(x => x.u == u))
    val all_ = if (took) live.union(Set({ u: u, at: z.now, px: px })) else live
    all {
      z' = canon(r.s, 0),
      mine' = if (out) Set() else all_,
      fine' = and {
        r.ok,
        if (out) (took and right(all_, z.count, z.now, r.s.rounds.get(A).px) and r.s.rounds.get(A).ts == z.now)
        else (not(took) or all_.size() < z.count)
      }
    }
  }
  action pass(n: int): bool = all { z' = canon(z, n), mine' = mine.map(x => { ...x, at: aged(x.at, n) }), fine' = true }
  action admin(k: str, u: str, n: int): bool = {
    val r = exec(z, { k: k, u: "owner", l: [], w: [u], n: n })
    all { z' = canon(r.s, 0), mine' = mine, fine' = r.s.count >= 1 and r.s.count <= r.s.status.keys().size() }
  }
  action init = {
    nondet n = 2.to(4).oneOf()
    all { z' = begin(n), mine' = Set(), fine' = true }
  }
  action step = any {
    { nondet u = SMALL.oneOf()
      nondet px = Set(1, 2, 4).oneOf()
      all { z.status.keys().contains(u), send(u, px) } },
    { nondet n = Set(900, 901).oneOf()
      pass(n) },
    { nondet n = 1.to(4).oneOf()
      admin("setCount", "o1", n) },
    { nondet u = SMALL.oneOf()
      nondet n = 1.to(3).oneOf()
      admin("removeOracles", u, n) },
    { nondet u = SMALL.oneOf()
      admin("addOracles", u, 0) }
  }
  val Inv = fine
}
