package mrpc

def validScope(s) = ((s.Type == 2010 || s.Type == 2013) && len(s.Command) > 0)
|| ((s.Type == 2006 || s.Type == 2001 || s.Type == 2004 || s.Type == 2002 || s.Type == 2005) && len(s.Context) > 0 && len(s.Command) == 0)
|| (s.Type == 2007 && len(s.Context) == 0 && len(s.Command) == 0)

func (*OperationRegistry).Get(o, scope) (h, ok)
property C20
requires o != nil && scope != nil
ensures has: ok == (has(o.ops, *scope) || has(o.ops, with(*scope, Context, "")))
ensures exact: has(o.ops, *scope) ==> h == o.ops[(*scope)]
ensures fallback: !has(o.ops, *scope) && ok ==> h == o.ops[with(*scope, Context, "")]

func (*OperationRegistry).Add(o, op, h) (err)
property C20
requires o != nil && o.ops != nil
modifies o.ops[*]
ensures when: (err == nil) == (validScope(op) && !isnil(h) && !old(has(o.ops, op)))
ensures new: err == nil ==> has(o.ops, op) && o.ops[op] == h && len(o.ops) == old(len(o.ops)) + 1
ensures kept: err != nil ==> len(o.ops) == old(len(o.ops)) && has(o.ops, op) == old(has(o.ops, op))
