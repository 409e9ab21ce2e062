// The starting point of every behaviour, written out for the conformance harness: the deployed
// genesis state, the opening transactions and the state they lead to.
module dump {
  import world.* from "./world"
  var g: State
  var ops: List[Op]
  var markets: List[str]
  var tokens: List[str]
  var mids: List[State]
  var s: State
  action init = all { g' = genesis, ops' = OPENING, markets' = MARKETS, tokens' = TOKENS,
    mids' = OPENING.foldl([], (l, o) => l.append(exec(if (l == []) genesis else l[l.length() - 1], o).s)), s' = opened }
  action step = all { g' = g, ops' = ops, markets' = markets, tokens' = tokens, mids' = mids, s' = s }
}
