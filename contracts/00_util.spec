// ---- utils.go --------------------------------------------------------------

def ws(c) = c == 32 || c == 9 || c == 10 || c == 13

func space(curr) (r)
  ensures r == ws(curr)

func replace(json, newValue, start, end) (r)
  requires 0 <= start && start <= end && end <= len(json)
  ensures value: r == json[:start] ++ newValue ++ json[end:]
  ensures owned: fresh(r) && !isnil(r)

func createTabs(n) (r)
  ensures len: len(r) == ite(n < 0, 0, n)
  ensures tabs: forall i: int {r[i]} :: 0 <= i && i < n ==> r[i] == 9
  ensures owned: fresh(r)
  inv forall q: int {res[q]} :: 0 <= q && q <= rangeindex ==> res[q] == 9

func stripQuotes(str) (r)
  ensures r == ite(len(str) > 1 && str[0] == 34 && str[len(str)-1] == 34, str[1:len(str)-1], str)
