spec errors.New (format, params) (e)
behavior main
prop C23
ensures e != nil
returns e fresh

spec errors.NewError (err) (e)
behavior main
prop C23
returns e nil | fresh
ensures iff(e == nil, err == nil)
ensures imp(e != nil, eqv(e.Message, err))

spec errors.Update (e) (res)
behavior main
prop C23
nilable e
returns res e
ensures imp(e != nil, eqv(e.Message, old(e.Message)))
behavior trace
prop C23
trackstack
modifies e.Stack, content(e.Stack)
requires e != nil
returns res e
ensures len(res.Stack) == len(old(e.Stack)) + 1
ensures eqv(res.Message, old(e.Message))
