// Exact fixed-point arithmetic of the protocol (common/math): unsigned values carried as
// raw integers together with an implicit scale.  Unless a name says otherwise every value
// is at RAY scale (27 decimals).  Integer division truncates toward zero.
module fixedpoint {
  pure val WAD: int = 1000000000000000000
  pure val RAY: int = 1000000000000000000000000000
  pure val BPS: int = 10000
  pure val E9: int = 1000000000
  pure val E23: int = 100000000000000000000000      // bps -> RAY
  pure val MS_YEAR: int = 31556926000

  pure def p10(n: int): int =
    if (n == 0) 1 else if (n == 6) 1000000 else if (n == 9) E9 else if (n == 18) WAD
    else if (n == 21) 1000 * WAD else if (n == 27) RAY else if (n == 4) BPS else 10^n

  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def imax(a: int, b: int): int = if (a > b) a else b

  // up-scaling a raw amount of `dec` decimals (dec <= 27) to RAY
  pure def up(x: int, dec: int): int = x * p10(27 - dec)
  // bps -> RAY
  pure def b2r(x: int): int = x * E23
  // half-up downscale from RAY to `dec` decimals
  pure def down(x: int, dec: int): int = {
    val f = p10(27 - dec)
    (x + f / 2) / f
  }
  pure def mulR(a: int, b: int): int = (a * b + RAY / 2) / RAY
  // callers guard b > 0
  pure def divR(a: int, b: int): int = (a * RAY + b / 2) / b
  pure def mulW(a: int, b: int): int = (a * b + WAD / 2) / WAD
  pure def divW(a: int, b: int): int = (a * WAD + b / 2) / b
  // signed half-up division (away from zero on negative quotients)
  pure def sign(a: int): int = if (a > 0) 1 else if (a < 0) 0 - 1 else 0
  pure def divSignedR(a: int, b: int): int = {
    val n = a * RAY
    val h = b / 2
    if (sign(n) != sign(b)) (n - h) / b else (n + h) / b
  }
  pure def mulSignedR(a: int, b: int): int = {
    val p = a * b
    if (p < 0) (p - RAY / 2) / RAY else (p + RAY / 2) / RAY
  }
  // integer square root (floor), Newton iteration from above
  pure def isqrt(n: int): int =
    if (n < 2) n else {
      // 2^k >= sqrt(n): start high enough for n < 2^320
      val start = range(0,21).foldl(1, (acc, _i) => if (acc * acc > n) acc else acc * 256)
      range(0,171).foldl({ x: start, done: false }, (st, _i) =>
        if (st.done) st else {
          val y = (st.x + n / st.x) / 2
          if (y >= st.x) { x: st.x, done: true } else { x: y, done: false }
        }).x
    }
  run isqrtTest = all {
    assert(isqrt(0) == 0), assert(isqrt(1) == 1), assert(isqrt(99) == 9), assert(isqrt(100) == 10),
    assert(isqrt(RAY * RAY) == RAY), assert(isqrt(RAY * RAY - 1) == RAY - 1),
    assert(divSignedR(0 - 1, 2) == 0 - RAY / 2)
  }
}
