// The shared arithmetic (common/math, common/rates) as a machine: each step evaluates one function
// on arbitrary operands and scales; the replay calls the same function of the library.
module mathvec {
  import pool.* from "./pool"
  export pool.*
  import fixedpoint.* from "./fixedpoint"
  export fixedpoint.*

  // a and b carry sa and sb decimals; p is the precision asked for
  type Call = { k: str, a: int, sa: int, b: int, sb: int, p: int, q: List[int] }
  type Last = { op: Call, r: int, bad: Set[str] }
  var last: Last
  var count: int

  pure def iabs(x: int): int = if (x < 0) 0 - x else x
  // changing the number of decimals: exact upwards, truncating downwards
  pure def rescale(x: int, s0: int, s1: int): int =
    if (s1 >= s0) x * 10^(s1 - s0) else x / 10^(s0 - s1)
  pure def half(n: int, d: int): int =   // n/d rounded half away from zero, d > 0
    if (n < 0) 0 - ((0 - n + d / 2) / d) else (n + d / 2) / d
  pure def mul(a: int, b: int, p: int): int = half(a * b, 10^p)
  pure def div(a: int, b: int, p: int): int = if (b < 0) half((0 - a) * 10^p, 0 - b) else half(a * 10^p, b)
  pure def model(q: List[int]): Pool =
    { sup: 0, bor: 0, rev: 0, sIdx: RAY, bIdx: RAY, ts: 0, res: 0, dec: 18,
      mx: q[0], base: q[1], s1: q[2], s2: q[3], s3: q[4], mid: q[5], opt: q[6], rf: q[7] }

  pure def value(o: Call): int = {
    val a = rescale(o.a, o.sa, o.p)
    val b = rescale(o.b, o.sb, o.p)
    if (o.k == "mul" or o.k == "muls") mul(a, b, o.p)
    else if (o.k == "div" or o.k == "divs") div(a, b, o.p)
    else if (o.k == "rescale") (if (o.p >= o.sa) a else half(o.a, 10^(o.sa - o.p)))
    else if (o.k == "min") (if (o.a * 10^(27 - o.sa) < o.b * 10^(27 - o.sb)) rescale(o.a, o.sa, 27) else rescale(o.b, o.sb, 27))
    else if (o.k == "max") (if (o.a * 10^(27 - o.sa) > o.b * 10^(27 - o.sb)) rescale(o.a, o.sa, 27) else rescale(o.b, o.sb, 27))
    else if (o.k == "rate") rateMs(o.a, model(o.q))
    else if (o.k == "deposit") depositRate(o.a, o.b, o.p)
    else if (o.k == "compound") compound(o.a, o.b)
    else 0
  }
  // The rounding rule stated without the formula: within half a unit, ties away from zero.
  pure def rounded(r: int, n: int, d: int): bool = {
    val e = iabs(r * d - n)
    2 * e < d or (2 * e == d and iabs(r * d) > iabs(n))
  }
  pure def good(o: Call, r: int): bool = {
    val a = rescale(o.a, o.sa, o.p)
    val b = rescale(o.b, o.sb, o.p)
    if (o.k == "mul" or o.k == "muls") rounded(r, a * b, 10^o.p)
    else if (o.k == "div" or o.k == "divs") rounded(if (b < 0) 0 - r else r, a * 10^o.p, iabs(b))
    else if (o.k == "rescale") (if (o.p >= o.sa) r == o.a * 10^(o.p - o.sa) else rounded(r, o.a, 10^(o.sa - o.p)))
    else true
  }
  // the curve: at most the cap, not below the base (unless capped), and monotone
  pure def curve(o: Call, r: int): bool = o.k == "rate" implies {
    val p = model(o.q)
    and { r <= divR(p.mx, MS_YEAR * RAY), r >= divR(imin(p.base, p.mx), MS_YEAR * RAY), rateMs(o.a + E9, p) >= r,
      // the segments meet at the kinks
      annualRate(p.mid, p) == imin(p.base + p.s1, p.mx), annualRate(p.opt, p) == imin(p.base + p.s1 + p.s2, p.mx) }
  }
  // compounding: at least simple interest, at least one
  pure def growth(o: Call, r: int): bool = o.k == "compound" implies (r >= RAY and r >= RAY + mulR(o.a, o.b * RAY))

  // operands of every magnitude, many of them next to ties
  pure def mag(k: int, m: int): int = m % 10^(k % 37)
  action step = {
    nondet k = oneOf(Set("mul", "mul", "div", "muls", "divs", "rescale", "min", "max", "rate", "rate", "deposit", "compound"))
    nondet ka = oneOf(0.to(80))
    nondet kb = oneOf(0.to(80))
    nondet ma = oneOf(0.to(1000000000000000000000000000000000000))
    nondet mb = oneOf(0.to(1000000000000000000000000000000000000))
    nondet sa = oneOf(Set(0, 2, 4, 6, 8, 18, 27))
    nondet sb = oneOf(Set(0, 2, 4, 6, 8, 18, 27))
    nondet p = oneOf(Set(0, 2, 4, 6, 8, 18, 27))
    nondet tie = oneOf(0.to(5))
    nondet neg = oneOf(0.to(3))
    nondet f1 = oneOf(1.to(1000000))
    nondet f2 = oneOf(1.to(1000000))
    nondet at = oneOf(0.to(9))
    val x = mag(ka, ma)
    val y = mag(kb, mb)
    // a product or quotient exactly half way between two results
    val div = k == "div" or k == "divs"
    val off = if (at < 6) 0 else if (at < 8) 1 else 0 - 1   // (or just beside it)
    val a0 = if (k == "rescale") (if (tie <= 2 and sa > p) imax(0, (2 * x + 1) * 10^(sa - p) / 2 + off) else x)
      else if (tie == 0) imax(0, (2 * (x % 1000) + 1) * 10^p / 2 + off) else if (tie == 1) imax(0, 2 * x + 1 + off) else x
    val b0 = if (tie == 0) 1 else if (tie == 1) (if (div) 2 * 10^p else imax(1, 10^p / 2)) else y
    val sgn = (k == "muls" or k == "divs")
    val sa1 = if (tie <= 1) p else sa
    // (operands of min and max carry the same number of decimals)
    val sb1 = if (k == "min" or k == "max") sa1 else if (tie <= 1) p else sb
    // division needs a divisor that survives truncation
    val b1 = if (k == "div" or k == "divs") (if (rescale(b0, sb1, p) == 0) 10^sb1 else b0) else b0
    val op =
      if (k == "rate") {
        val mid = RAY * (f1 % 800000 + 1) / 1000000
        val opt = mid + (RAY - mid) * (f2 % 999999 + 1) / 1000001
        val base = RAY * (f1 % 97) / 1000
        val s1 = RAY * (f2 % 389) / 1000
        val s2 = s1 + RAY * (f1 % 971) / 500
        val s3 = s2 + RAY * (f2 % 907) / 100
        // the cap may lie anywhere above the base rate, also inside the curve
        val mx = base + 1 + (if (neg == 0) (s1 + s2) * (f1 % 1000) / 1000 else s1 + s2 + s3 + RAY / 10)
        val u = if (at == 0) 0 else if (at == 1) RAY else if (at == 2) mid else if (at == 3) opt else if (at == 4) mid - 1
          else if (at == 5) opt - 1 else if (at == 6) opt + 1 else x % (RAY + 1)
        { k: k, a: u, sa: 27, b: 0, sb: 0, p: 27, q: [mx, base, s1, s2, s3, mid, opt, f1 % 9999] }
      }
      else if (k == "deposit") { k: k, a: if (at == 0) 0 else x % (RAY + 1), sa: 27, b: y % (10^18), sb: 27, p: f1 % 10000, q: [] }
      else if (k == "compound") { k: k, a: y % (10^17), sa: 27, b: if (at == 0) 0 else x % 63113852000, sb: 0, p: 27, q: [] }
      else { k: k, a: if (sgn and neg % 2 == 1) 0 - a0 else a0, sa: if (k == "rescale") sa else sa1,
        b: if (sgn and neg >= 2) 0 - b1 else b1, sb: sb1, p: p, q: [] }
    val r = value(op)
    all { last' = { op: op, r: r, bad: Set(if (good(op, r)) "" else "C28", if (curve(op, r)) "" else "C27", if (growth(op, r)) "" else "C06").exclude(Set("")) },
      count' = count + 1 }
  }
  action init = all { last' = { op: { k: "noop", a: 0, sa: 0, b: 0, sb: 0, p: 0, q: [] }, r: 0, bad: Set() }, count' = 0 }
  val Inv = last.bad == Set()
}
