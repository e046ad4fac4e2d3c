"""Renders behaviours of specs/source/XgoSource as Go programs.

The tables give, per syntactic position of the specification, its Go text:
{n} the name, {id} the number of the observation, {v} a value, {t} a prefix for
names of its own."""

INT = {
    "plain": "o({id}, {n})",
    "paren": "o({id}, ({n}))",
    "addl": "o({id}, {n}+0)",
    "addr0": "o({id}, 0+{n})",
    "neg": "o({id}, -(-{n}))",
    "or": "o({id}, {n}|0)",
    "shl": "o({id}, {n}<<0)",
    "shr": "o({id}, len(tab[:1<<{n}-1<<{n}+{n}]))",
    "arg": "o({id}, idn({n}))",
    "arg2": "o({id}, second(0, {n}))",
    "variadic": "o({id}, sum({n}, 0))",
    "spread": "o({id}, sum([]int{{{n}}}...))",
    "index": "o({id}, tab[{n}])",
    "sliceto": "o({id}, len(tab[:{n}]))",
    "slicefrom": "o({id}, tab[{n}:][0])",
    "slicecap": "o({id}, cap(tab[:0:{n}]))",
    "define": "{t} := {n}\no({id}, {t})",
    "define2": "{t}, {t}b := {n}, 0\n_ = {t}b\no({id}, {t})",
    "definelast": "{t}b, {t} := 0, {n}\n_ = {t}b\no({id}, {t})",
    "var": "var {t} = {n}\no({id}, {t})",
    "vartyped": "var {t} int = {n}\no({id}, {t})",
    "vargroup": "var (\n{t}b = 0\n{t} = {t}b + {n}\n)\no({id}, {t})",
    "assign": "var {t} int\n{t} = {n}\no({id}, {t})",
    "assign2": "var {t}, {t}b int\n{t}b, {t} = 0, {n}\n_ = {t}b\no({id}, {t})",
    "opassign": "{t} := 0\n{t} += {n}\no({id}, {t})",
    "blank": "_ = {n}\n_, {t} := {n}, {n}\no({id}, {t})",
    "slicelit": "o({id}, []int{{{n}}}[0])",
    "arraylit": "o({id}, [...]int{{0, {n}}}[1])",
    "idxlit": "o({id}, []int{{1: {n}}}[1])",
    "maplit": "o({id}, map[int]int{{0: {n}}}[0])",
    "nestlit": "o({id}, [][]int{{{{{n}}}}}[0][0])",
    "structlit": "o({id}, struct{{ a, b int }}{{1, {n}}}.b)",
    "keyedlit": "o({id}, struct{{ a, b int }}{{b: {n}}}.b)",
    "ptrlit": "o({id}, (&struct{{ a, b int }}{{b: {n}}}).b)",
    "ifcond": "if {n} == {v} {{\no({id}, {v})\n}} else {{\no({id}, -1)\n}}",
    "ifcondy": "if {v} == {n} && true {{\no({id}, {v})\n}} else {{\no({id}, -1)\n}}",
    "ifnot": "if !({n} != {v}) {{\no({id}, {v})\n}} else {{\no({id}, -1)\n}}",
    "ifinit": "if {t} := {n}; true {{\no({id}, {t})\n}}",
    "elsecond": "if false {{\n}} else if {n} == {v} {{\no({id}, {v})\n}} else {{\no({id}, -1)\n}}",
    "elseinit": "if false {{\n}} else if {t} := {n}; true {{\no({id}, {t})\n}}",
    "forinit": "for {t} := {n}; ; {{\no({id}, {t})\nbreak\n}}",
    "forcond": "{t} := 0\nfor {t} < {n} {{\n{t}++\n}}\no({id}, {t})",
    "forpost": "{t} := -1\nfor {t}b := 0; {t}b < 1; {t}b, {t} = {t}b+1, {n} {{\n}}\no({id}, {t})",
    "rangeint": "{t} := 0\nfor range {n} {{\n{t}++\n}}\no({id}, {t})",
    "rangelit": "for _, {t} := range []int{{{n}}} {{\no({id}, {t})\n}}",
    "rangebody": "for range 1 {{\no({id}, {n})\n}}",
    "switchtag": "switch {n} {{\ncase {v}:\no({id}, {v})\ndefault:\no({id}, -1)\n}}",
    "switchinit": "switch {t} := {n}; {{\ndefault:\no({id}, {t})\n}}",
    "switchcase": "switch {t} := {v}; {t} {{\ncase 99, {n}:\no({id}, {v})\ndefault:\no({id}, -1)\n}}",
    "switchbool": "switch {{\ncase {n} == {v}:\no({id}, {v})\ndefault:\no({id}, -1)\n}}",
    "switchbody": "switch {{\ncase false:\ndefault:\no({id}, {n})\n}}",
    "fallthrough": "switch 1 {{\ncase 1:\nfallthrough\ncase 2:\no({id}, {n})\n}}",
    "typeswitch": "switch {t} := interface{{}}({n}).(type) {{\ncase int:\no({id}, {t})\n}}",
    "typeassert": "o({id}, interface{{}}({n}).(int))",
    "conv": "o({id}, int(int64({n})))",
    "convnum": "o({id}, Num({n}).Get())",
    "funclit": "o({id}, func() int {{ return {n} }}())",
    "funcvar": "{t} := func() int {{\nreturn {n}\n}}\no({id}, {t}())",
    "funcnest": "o({id}, func() int {{ return func() int {{ return {n} }}() }}())",
    "namedresult": "o({id}, func() ({t} int) {{ {t} = {n}; return }}())",
    "funcarg": "o({id}, func({t} int) int {{ return {t} }}({n}))",
    "callback": "o({id}, apply(func() int {{ return {n} }}))",
    "deferarg": "func() {{\ndefer func({t} int) {{ o({id}, {t}) }}({n})\n}}()",
    "deferbody": "func() {{\ndefer func() {{ o({id}, {n}) }}()\n}}()",
    "defercall": "func() {{\ndefer o({id}, {n})\n}}()",
    "goarg": "{t} := make(chan int)\ngo func(x int) {{ {t} <- x }}({n})\no({id}, <-{t})",
    "gobody": "{t} := make(chan int)\ngo func() {{ {t} <- {n} }}()\no({id}, <-{t})",
    "send": "{t} := make(chan int, 1)\n{t} <- {n}\no({id}, <-{t})",
    "selsend": "{t} := make(chan int, 1)\nselect {{\ncase {t} <- {n}:\n}}\no({id}, <-{t})",
    "selbody": "select {{\ndefault:\no({id}, {n})\n}}",
    "selrecvbody": "select {{\ncase {t} := <-ch({v}):\no({id}, {n}+{t}-{v})\n}}",
    "return2": "{t}, _ := func() (int, int) {{ return {n}, 0 }}()\no({id}, {t})",
    "append": "o({id}, append([]int{{}}, {n})[0])",
    "make": "o({id}, len(make([]int, {n})))",
    "makecap": "o({id}, cap(make([]int, 0, {n})))",
    "min": "o({id}, min({n}, 99))",
    "sprint": "o({id}, atoi(fmt.Sprint({n})))",
    "targetidx": "{t} := make([]int, 16)\n{t}[{n}] = 1\no({id}, at({t}))",
    "incidx": "{t} := make([]int, 16)\n{t}[{n}]++\no({id}, at({t}))",
    "opidx": "{t} := make([]int, 16)\n{t}[{n}] += 1\no({id}, at({t}))",
    "mapidx": "{t} := map[int]int{{}}\n{t}[{n}] = 1\nfor k := range {t} {{\no({id}, k)\n}}",
    "rangeidx": "{t} := make([]int, 16)\nfor _, {t}[{n}] = range []int{{1}} {{\n}}\no({id}, at({t}))",
    "delete": "{t} := map[int]int{{{v}: 1}}\ndelete({t}, {n})\no({id}, {v}+len({t}))",
    "generic": "o({id}, gid({n}))",
    "genericinst": "o({id}, gid[int]({n}))",
    "labeled": "{t}l:\nfor {{\no({id}, {n})\nbreak {t}l\n}}",
    "block": "{{\no({id}, {n})\n}}",
    "multiline": "o({id},\n{n}+\n0)",
    "chain": "o({id}, add(add(0, {n}), 0))",
    "twice": "o({id}, {n}+{n}-{n})",
    "ptrarg": "{t} := &box{{{n}}}\no({id}, {t}.v)",
    "methodarg": "o({id}, box{{}}.with({n}).v)",
    "methodchain": "o({id}, (&box{{{n}}}).get())",
    "localconst": "const {t} = 0\no({id}, {n}+{t})",
    "localtype": "type {t} struct{{ a int }}\no({id}, {t}{{{n}}}.a)",
    "goto": "goto {t}l\n{t}l:\no({id}, {n})",
}
INT_ADDR = {
    "deref": "o({id}, *&{n})",
    "addrvar": "{t} := &{n}\no({id}, *{t})",
    "addrarg": "o({id}, load(&{n}))",
    "addrlit": "o({id}, *[]*int{{&{n}}}[0])",
    "addrfield": "o({id}, *struct{{ p *int }}{{p: &{n}}}.p)",
    "addrret": "o({id}, *func() *int {{ return &{n} }}())",
    "addrparen": "o({id}, *(&{n}))",
}
INT_WRITE = {
    "set": "{n} = {v}",
    "set2": "{n}, _ = {v}, 0",
    "setlast": "_, {n} = 0, {v}",
    "setparen": "({n}) = {v}",
    "setaddr": "*&{n} = {v}",
    "setptr": "{t} := &{n}\n*{t} = {v}",
    "setarg": "store(&{n}, {v})",
    "setclosure": "func() {{ {n} = {v} }}()",
    "setrange": "for _, {n} = range []int{{{v}}} {{\n}}",
    "setrangekey": "for {n} = range {v} + 1 {{\n}}",
    "setrecv": "{n} = <-ch({v})",
    "setselect": "select {{\ncase {n} = <-ch({v}):\n}}",
    "setok": "{n}, _ = map[int]int{{0: {v}}}[0]",
    "setcall": "{n}, _ = two({v})",
    "setifinit": "if {n} = {v}; true {{\n}}",
    "setfor": "for {n} = {v}; false; {{\n}}",
    "setpost": "for {t} := 0; {t} < 1; {t}, {n} = 1, {v} {{\n}}",
    "setdefer": "func() {{\ndefer func() {{ {n} = {v} }}()\n}}()",
    "setgo": "{t} := make(chan int)\ngo func() {{ {n} = {v}; close({t}) }}()\n<-{t}",
    "setscan": "fmt.Sscan(\"{v}\", &{n})",
}
INT_RMW = {
    "incs": "for range {v} {{\n{n}++\n}}",
    "adds": "{n} += {v}",
    "addself": "{n} = {n} + {v}",
    "addptr": "{t} := &{n}\n*{t} += {v}",
    "subs": "{n} -= -{v}",
}
OWN = {
    "field": "o({id}, struct{{ {n} int }}{{7}}.{n})",
    "keyfield": "o({id}, struct{{ {n} int }}{{{n}: 7}}.{n})",
    "fieldset": "var {t} struct{{ {n} int }}\n{t}.{n} = 7\no({id}, {t}.{n})",
    "fieldptr": "{t} := &struct{{ {n} int }}{{7}}\n{t}b := &{t}.{n}\no({id}, *{t}b)",
    "method": "o({id}, own{{}}.{n}())",
    "methodval": "{t} := own{{}}.{n}\no({id}, {t}())",
    "methodexpr": "o({id}, own.{n}(own{{}}))",
    "label": "func() {{\n{n}:\nfor {{\no({id}, 7)\nbreak {n}\n}}\n}}()",
    "labelcont": "func() {{\n{n}:\nfor {t} := 0; {t} < 1; {t}++ {{\no({id}, 7)\ncontinue {n}\n}}\n}}()",
    "param": "o({id}, func({n} int) int {{ return {n} }}(7))",
    "paramtype": "var {t} func({n} int) int = idn\no({id}, {t}(7))",
    "ifacemethod": "var {t} interface{{ {n}() int }} = own{{}}\no({id}, {t}.{n}())",
    "embedded": "o({id}, struct{{ own }}{{}}.{n}())",
    "string": "o({id}, len(\"{n}\")-len(\"{n}\")+7) // {n}",
}
REC = {  # S: struct with methods; also the qualified and the embedding one
    "field": "o({id}, {n}.A)",
    "fieldparen": "o({id}, ({n}).A)",
    "nested": "o({id}, {n}.In.A)",
    "array": "o({id}, {n}.Arr[0])",
    "slice": "o({id}, {n}.Sl[0])",
    "slice2": "o({id}, {n}.Sl[:1][0])",
    "ptrfield": "o({id}, {n}.Ptr.A)",
    "ptrmeth": "o({id}, {n}.Ptr.PA())",
    "mapfield": "o({id}, {n}.Mp[\"k\"])",
    "funcfield": "o({id}, {n}.Fn())",
    "method": "o({id}, {n}.Get())",
    "methodval": "{t} := {n}.Get\no({id}, {t}())",
    "methnested": "o({id}, {n}.In.VA())",
    "promoted": "o({id}, {n}.B)",
    "promotedmeth": "o({id}, {n}.BGet())",
    "copy": "{t} := {n}\no({id}, {t}.A)",
    "arg": "o({id}, idn({n}.A))",
    "interf": "o({id}, interface{{ Get() int }}({n}).Get())",
    "rangearr": "for _, {t} := range {n}.Arr {{\no({id}, {t})\nbreak\n}}",
    "rangesl": "for _, {t} := range {n}.Sl {{\no({id}, {t})\n}}",
    "closure": "o({id}, func() int {{ return {n}.A }}())",
    "defermeth": "func() {{\ndefer o({id}, {n}.Get())\n}}()",
    "gometh": "{t} := make(chan int)\ngo func() {{ {t} <- {n}.Get() }}()\no({id}, <-{t})",
    "lit": "o({id}, struct{{ a int }}{{a: {n}.A}}.a)",
    "idx": "o({id}, tab[{n}.A])",
    "cond": "if {n}.A == {v} {{\no({id}, {v})\n}} else {{\no({id}, -1)\n}}",
    "addrslice": "o({id}, *&{n}.Sl[0])" ,
    "ptrelem": "{t} := &{n}.Ptr.A\no({id}, *{t})",
}
REC_ADDR = {
    "pmethod": "o({id}, {n}.PGet())",
    "pmethodval": "{t} := {n}.PGet\no({id}, {t}())",
    "addr": "{t} := &{n}\no({id}, {t}.A)",
    "addrcall": "o({id}, (&{n}).PGet())",
    "addrfield": "{t} := &{n}.A\no({id}, *{t})",
    "addrnested": "{t} := &{n}.In.A\no({id}, *{t})",
    "addrin": "{t} := &{n}.In\no({id}, {t}.A)",
    "pnested": "o({id}, {n}.In.PA())",
    "addrarr": "o({id}, *&{n}.Arr[0])",
    "slicearr": "o({id}, {n}.Arr[:][0])",
    "ppromoted": "o({id}, {n}.BPGet())",
    "addrarg": "o({id}, load(&{n}.A))",
    "elemmeth": "o({id}, {n}.Ins[0].PA())",
    "deferp": "func() {{\n{t} := 0\ndefer func() {{ o({id}, {t}) }}()\n{t} = {n}.PGet()\n}}()",
}
REC_WRITE = {
    "set": "{n} = {mk}({v})",
    "setmeth": "{n}.Set({v})",
    "setaddr": "{t} := &{n}\n*{t} = {mk}({v})",
    "setaddrmeth": "(&{n}).Set({v})",
    "setmethval": "{t} := {n}.Set\n{t}({v})",
    "setfields": "{n}.A, {n}.In.A, {n}.Arr[0], {n}.B, {n}.Sl = {v}, {v}, {v}, {v}, []int{{{v}}}\n{n}.Ptr.A, {n}.Mp[\"k\"], {n}.Ins[0].A = {v}, {v}, {v}\n{n}.Fn = func() int {{ return {v} }}",
}
REC_RMW = {}
EMB = {k: REC[k] for k in REC if k not in ("addrslice", "ptrelem", "slice2")}
EMB.update({k: REC_ADDR[k] for k in ("ppromoted", "pnested")})
EMB_ADDR = {k: REC_ADDR[k] for k in ("pmethod", "pmethodval", "addr", "addrcall", "deferp")}
PTR = {k: v for k, v in {**REC, **REC_ADDR}.items() if k not in ("copy", "addr", "addrcall", "interf")}
PTR.update({
    "star": "o({id}, (*{n}).A)",
    "starcopy": "{t} := *{n}\no({id}, {t}.A)",
    "starmeth": "o({id}, (*{n}).PGet())",
    "copyptr": "{t} := {n}\no({id}, {t}.A)",
    "iface": "o({id}, interface{{ PGet() int }}({n}).PGet())",
    "argptr": "o({id}, pget({n}))",
    "notnil": "if {n} != nil {{\no({id}, {n}.A)\n}}",
})
PTR_ADDR = {"addr": "{t} := &{n}\no({id}, (*{t}).A)", "addr2": "o({id}, (**&{n}).A)"}
PTR_WRITE = {
    "set": "{n} = {pmk}({v})",
    "setaddr": "{t} := &{n}\n*{t} = {pmk}({v})",
    "setfields": REC_WRITE["setfields"],
}
PTR_RMW = {"setmeth": "{n}.Set({v})", "setstar": "*{n} = {mk}({v})", "setmethval": "{t} := {n}.Set\n{t}({v})"}
SLICE = {
    "idx": "o({id}, {n}[0])", "range": "for _, {t} := range {n} {{\no({id}, {t})\n}}",
    "rangekey": "for {t} := range {n} {{\no({id}, {n}[{t}])\n}}",
    "slice": "o({id}, {n}[:][0])", "slice2": "o({id}, {n}[0:1][0])", "slice3": "o({id}, {n}[0:1:1][0])",
    "append": "o({id}, append({n}, 1)[0])", "spread": "o({id}, sum({n}...))", "appendto": "o({id}, append([]int{{}}, {n}...)[0])",
    "copy": "{t} := make([]int, 1)\ncopy({t}, {n})\no({id}, {t}[0])", "def": "{t} := {n}\no({id}, {t}[0])",
    "addr": "o({id}, *&{n}[0])", "len": "o({id}, {n}[len({n})-1])", "arg": "o({id}, first({n}))",
    "conv": "o({id}, first(Ints({n})))", "last": "o({id}, {n}[0]+cap({n})-cap({n}))",
}
SLICE_ADDR = {"addrof": "{t} := &{n}\no({id}, (*{t})[0])"}
SLICE_WRITE = {"set": "{n} = []int{{{v}}}", "setidx": "{n}[0] = {v}", "setaddr": "{t} := &{n}\n*{t} = []int{{{v}}}",
               "setrange": "for {n}[0] = range {v} + 1 {{\n}}", "set2": "{n}[0], _ = {v}, 0"}
SLICE_RMW = {"setapp": "{n} = append({n}[:0], {v})", "setslice": "{n}[:1][0] = {v}", "setelem": "{t} := &{n}[0]\n*{t} = {v}",
             "setcopy": "copy({n}, []int{{{v}}})", "setrangev": "for {t} := range {n} {{\n{n}[{t}] = {v}\n}}"}
MAP = {
    "idx": "o({id}, {n}[\"k\"])", "ok": "{t}, _ := {n}[\"k\"]\no({id}, {t})", "range": "for _, {t} := range {n} {{\no({id}, {t})\n}}",
    "arg": "o({id}, mget({n}))", "def": "{t} := {n}\no({id}, {t}[\"k\"])", "ifok": "if {t}, ok := {n}[\"k\"]; ok {{\no({id}, {t})\n}}",
    "len": "o({id}, {n}[\"k\"]+len({n})-1)",
}
MAP_ADDR = {"addrof": "{t} := &{n}\no({id}, (*{t})[\"k\"])"}
MAP_WRITE = {"set": "{n} = map[string]int{{\"k\": {v}}}", "setidx": "{n}[\"k\"] = {v}"}
MAP_RMW = {"setarg": "mset({n}, {v})"}
ARRAY = {
    "idx": "o({id}, {n}[0])", "range": "for _, {t} := range {n} {{\no({id}, {t})\nbreak\n}}", "copy": "{t} := {n}\no({id}, {t}[0])",
    "arg": "o({id}, afirst({n}))", "nestlit": "o({id}, [][2]int{{{n}}}[0][0])", "computed": "o({id}, {n}[len({n})-2])",
}
ARRAY_ADDR = {
    "slice": "o({id}, {n}[:][0])", "slice2": "{t} := {n}[:1]\no({id}, {t}[0])", "addr": "o({id}, *&{n}[0])", "addrof": "{t} := &{n}\no({id}, {t}[0])",
    "rangeptr": "for _, {t} := range &{n} {{\no({id}, {t})\nbreak\n}}", "spread": "o({id}, sum({n}[:1]...))",
}
ARRAY_WRITE = {"set": "{n} = [2]int{{{v}}}", "setidx": "{n}[0] = {v}", "setslice": "{t} := {n}[:]\n{t}[0] = {v}",
               "setaddr": "{t} := &{n}[0]\n*{t} = {v}", "setcopy": "copy({n}[:], []int{{{v}}})"}
FUNC = {
    "call": "o({id}, {n}())", "paren": "o({id}, ({n})())", "def": "{t} := {n}\no({id}, {t}())", "arg": "o({id}, apply({n}))",
    "defer": "func() {{\ndefer func({t} func() int) {{ o({id}, {t}()) }}({n})\n}}()", "slice": "o({id}, []func() int{{{n}}}[0]())",
    "golit": "{t} := make(chan int)\ngo func() {{ {t} <- {n}() }}()\no({id}, <-{t})", "lit": "o({id}, struct{{ f func() int }}{{f: {n}}}.f())",
    "ret": "o({id}, func() func() int {{ return {n} }}()())",
}
FUNC_ADDR = {"addrof": "{t} := &{n}\no({id}, (*{t})())"}
FUNC_WRITE = {"set": "{n} = func() int {{ return {v} }}", "setmk": "{n} = fmk({v})", "setaddr": "{t} := &{n}\n*{t} = fmk({v})"}
IFACE = {
    "method": "o({id}, {n}.Get())", "assert": "o({id}, int({n}.(Num)))", "ok": "if {t}, ok := {n}.(Num); ok {{\no({id}, int({t}))\n}}",
    "switch": "switch {t} := {n}.(type) {{\ncase Num:\no({id}, int({t}))\n}}", "methodval": "{t} := {n}.Get\no({id}, {t}())",
    "def": "{t} := {n}\no({id}, {t}.Get())", "conv": "o({id}, interface{{}}({n}).(Num).Get())", "eq": "if {n} == Getter(Num({v})) {{\no({id}, {v})\n}} else {{\no({id}, -1)\n}}",
    "defer": "func() {{\ndefer o({id}, {n}.Get())\n}}()", "arg": "o({id}, iget({n}))",
}
IFACE_ADDR = {"addrof": "{t} := &{n}\no({id}, (*{t}).Get())"}
IFACE_WRITE = {"set": "{n} = Num({v})", "setaddr": "{t} := &{n}\n*{t} = Num({v})"}
GEN = {
    "field": "o({id}, {n}.V)", "method": "o({id}, {n}.Get())", "def": "{t} := {n}\no({id}, {t}.V)", "arg": "o({id}, gget({n}))",
    "methodval": "{t} := {n}.Get\no({id}, {t}())",
}
GEN_ADDR = {"pmethod": "o({id}, {n}.PGet())", "addrfield": "o({id}, *&{n}.V)", "addrof": "{t} := &{n}\no({id}, {t}.V)"}
GEN_WRITE = {"set": "{n} = Box[int]{{{v}}}", "setmeth": "{n}.Set({v})", "setfield": "{n}.V = {v}"}
ANON = {"field": "o({id}, {n}.a)", "fieldarg": "o({id}, idn({n}.a))", "nested": "o({id}, {n}.in.b)", "cond": "if {n}.a == {v} {{\no({id}, {v})\n}} else {{\no({id}, -1)\n}}"}
ANON_ADDR = {"locked": "{n}.mu.Lock()\n{t} := &{n}.a\n{n}.mu.Unlock()\no({id}, *{t})", "addrfield": "o({id}, *&{n}.a)",
             "addrnested": "o({id}, *&{n}.in.b)", "pmeth": "o({id}, {n}.num.PGet())", "embedlock": "{n}.Lock()\n{n}.Unlock()\n{t} := &{n}.a\no({id}, *{t})"}
ANON_WRITE = {"set": "{n}.mu.Lock()\n{n}.a, {n}.in.b, {n}.num = {v}, {v}, {v}\n{n}.mu.Unlock()",
              "setaddr": "{n}.Lock()\n*&{n}.a, *&{n}.in.b, *&{n}.num = {v}, {v}, {v}\n{n}.Unlock()"}
NUM = {
    "method": "o({id}, {n}.Get())", "conv": "o({id}, int({n}))", "add": "o({id}, int({n}+0))", "addl": "o({id}, int(0+{n}))",
    "methodval": "{t} := {n}.Get\no({id}, {t}())", "def": "{t} := {n}\no({id}, int({t}))", "iface": "o({id}, Getter({n}).Get())",
    "idx": "o({id}, tab[{n}])", "switch": "switch {n} {{\ncase {v}:\no({id}, {v})\ndefault:\no({id}, -1)\n}}", "methexpr": "o({id}, Num.Get({n}))",
}
NUM_ADDR = {"pmethod": "o({id}, {n}.PGet())", "pmethodval": "{t} := {n}.PGet\no({id}, {t}())", "addr": "{t} := &{n}\no({id}, int(*{t}))",
            "pmethexpr": "o({id}, (*Num).PGet(&{n}))", "paren": "o({id}, ({n}).PGet())", "addrcall": "o({id}, (&{n}).PGet())"}
NUM_WRITE = {"set": "{n} = {v}", "setconv": "{n} = Num({v})", "setmeth": "{n}.Set({v})", "setaddr": "*&{n} = {v}", "setmethval": "{t} := {n}.Set\n{t}({v})"}
BYT = {  # a package level constant-initialised rune, float, string ...: read by conversion
    "conv": "o({id}, int({n}))", "def": "{t} := {n}\no({id}, int({t}))", "lit": "o({id}, int([]float64{{{n}}}[0]))",
    "arith": "o({id}, int({n}*2)-int({n}))", "arg": "o({id}, int(fid({n})))",
}
BYT_ADDR = {"addrof": "{t} := &{n}\no({id}, int(*{t}))"}
BYT_WRITE = {"set": "{n} = {v}"}

LOCALFUNC = {"call": FUNC["call"], "def": FUNC["def"], "arg": FUNC["arg"], "paren": FUNC["paren"], "golit": FUNC["golit"], "slice": FUNC["slice"]}
READ = {"int": INT, "rec": REC, "qrec": REC, "emb": EMB, "ptr": PTR, "slice": SLICE, "map": MAP, "array": ARRAY, "func": FUNC,
        "iface": IFACE, "gen": GEN, "anon": ANON, "num": NUM, "float": BYT, "qint": INT,
        "localsub": {"localfield": "o({id}, sub.Z)", "localrec": "o({id}, sub.A.B)"},
        "localtype": {"typeconv": "o({id}, int({n}(7)))", "typevar": "var {t} {n} = 7\no({id}, int({t}))", "typelit": "o({id}, int([]{n}{{7}}[0]))",
                 "typeparam": "o({id}, func({t} {n}) int {{ return int({t}) }}(7))", "typeassert": "o({id}, int(interface{{}}({n}(7)).({n})))",
                 "typeswitch": "switch {t} := interface{{}}({n}(7)).(type) {{\ncase {n}:\no({id}, int({t}))\n}}",
                 "typenew": "o({id}, 7+int(*new({n})))", "typemake": "o({id}, 7+len(make(map[{n}]int)))"},
        "localfunc": LOCALFUNC,
        "localrecv": {"recvconv": "o({id}, int({n}))", "recvcopy": "{t} := {n}\no({id}, int({t}))", "recvclosure": "o({id}, func() int {{ return int({n}) }}())"}}
ADDR = {"int": INT_ADDR, "qint": INT_ADDR, "rec": REC_ADDR, "qrec": REC_ADDR, "emb": EMB_ADDR, "ptr": PTR_ADDR, "slice": SLICE_ADDR,
        "map": MAP_ADDR, "array": ARRAY_ADDR, "func": FUNC_ADDR, "iface": IFACE_ADDR, "gen": GEN_ADDR, "anon": ANON_ADDR,
        "num": NUM_ADDR, "float": BYT_ADDR}
WRITE = {"int": INT_WRITE, "qint": INT_WRITE, "rec": REC_WRITE, "qrec": REC_WRITE, "emb": REC_WRITE, "ptr": PTR_WRITE, "slice": SLICE_WRITE,
         "map": MAP_WRITE, "array": ARRAY_WRITE, "func": FUNC_WRITE, "iface": IFACE_WRITE, "gen": GEN_WRITE, "anon": ANON_WRITE,
         "num": NUM_WRITE, "float": BYT_WRITE}
NUM_RMW = {}
RMW = {"int": INT_RMW, "qint": INT_RMW, "ptr": PTR_RMW, "slice": SLICE_RMW, "map": MAP_RMW}

SHAPES = {"X": "int", "Y": "int", "N": "num", "S": "rec", "P": "ptr", "L": "slice", "M": "map", "R": "array", "F": "func", "I": "iface",
          "G": "gen", "U": "anon", "E": "emb", "D": "float", "Z": "qint", "ZT": "qrec", "ZP": "ptr", "sub": "localsub"}
QUALS = ["Z", "ZT", "ZP"]
TYPES = {"int": "int", "num": "Num", "rec": "Rec", "ptr": "*Rec", "slice": "[]int", "map": "map[string]int", "array": "[2]int",
         "func": "func() int", "iface": "Getter", "gen": "Box[int]", "emb": "Emb", "float": "float64", "qint": "int", "qrec": "sub.Rec",
         "anon": "struct {\n\tsync.Mutex\n\tmu sync.Mutex\n\ta int\n\tin struct{ b int }\n\tnum Num\n}"}
MAKE = {"int": "{v}", "num": "{v}", "rec": "mkRec({v})", "ptr": "mkRecP({v})", "slice": "[]int{{{v}}}", "map": "map[string]int{{\"k\": {v}}}",
        "array": "[2]int{{{v}}}", "func": "func() int {{ return {v} }}", "iface": "Num({v})", "gen": "Box[int]{{{v}}}", "emb": "mkEmb({v})",
        "float": "{v}", "qint": "{v}", "qrec": "sub.MkRec({v})"}
MK = {"S": "mkRec", "P": "mkRec", "E": "mkEmb", "ZT": "sub.MkRec", "ZP": "sub.MkRec"}
PMK = {"P": "mkRecP", "ZP": "sub.MkRecP"}

REC_GO = '''
type In struct{ A int }

func (i In) VA() int   { return i.A }
func (i *In) PA() int  { return i.A }

type Base struct{ B int }

func (b Base) BGet() int   { return b.B }
func (b *Base) BPGet() int { return b.B }

type Rec struct {
	A   int
	In  In
	Arr [2]int
	Ins [1]In
	Sl  []int
	Mp  map[string]int
	Fn  func() int
	Ptr *In
	Base
}

func (r Rec) Get() int   { return r.A }
func (r *Rec) PGet() int { return r.A }
func (r *Rec) Set(v int) { *r = MkRec(v) }

func MkRec(v int) Rec {
	return Rec{A: v, In: In{v}, Arr: [2]int{v}, Ins: [1]In{{v}}, Sl: []int{v}, Mp: map[string]int{"k": v}, Fn: func() int { return v }, Ptr: &In{v}, Base: Base{v}}
}
func MkRecP(v int) *Rec { r := MkRec(v); return &r }
'''

SUB_GO = "package sub\n" + REC_GO + '''
var Z = 1
var ZT = MkRec(1)
var ZP = &Rec{A: 1}
'''

# package level declarations, in several forms and files
DECLS1 = '''
var X = 1
var (
	Y    int = 1
	N        = Num(1)
	S        = Rec{A: 1}
)
var P *Rec = MkRecP(1)
var L, M = []int{1}, map[string]int{"k": 1}
var F = func() int { return 1 }
var U struct {
	sync.Mutex
	mu  sync.Mutex
	a   int
	in  struct{ b int }
	num Num
}
'''
DECLS2 = '''
var R [2]int = [2]int{1}
var I Getter = Num(1)
var G = Box[int]{1}
var E = Emb{Rec: &Rec{}}
const half = 0.5
var D = half * 2
'''

LIB = '''
type Num int

func (n Num) Get() int     { return int(n) }
func (n *Num) PGet() int   { return int(*n) }
func (n *Num) Set(v int)   { *n = Num(v) }

type Getter interface{ Get() int }
type Ints []int
type Box[T any] struct{ V T }

func (b Box[T]) Get() T   { return b.V }
func (b *Box[T]) PGet() T { return b.V }
func (b *Box[T]) Set(v T) { b.V = v }

type box struct{ v int }

func (b box) with(v int) box { return box{v} }
func (b *box) get() int      { return b.v }
'''

# helpers keep to themselves: none of them names a tested variable
HELPERS = '''
type rint int
type own struct{}
%(own)s
func (o own) call() {}
func idn(v int) int             { return v }
func second(a, b int) int       { return b }
func add(a, b int) int          { return a + b }
func sum(vs ...int) int         { t := 0; for _, v := range vs { t += v }; return t }
func apply(f func() int) int    { return f() }
func ch(v int) chan int         { c := make(chan int, 1); c <- v; return c }
func two(v int) (int, int)      { return v, 0 }
func load(p *int) int           { return *p }
func store(p *int, v int)       { *p = v }
func gid[T any](v T) T          { return v }
func first(l []int) int         { return l[0] }
func afirst(l [2]int) int       { return l[0] }
func mget(m map[string]int) int { return m["k"] }
func mset(m map[string]int, v int) { m["k"] = v }
func fmk(v int) func() int      { return func() int { return v } }
func iget(g Getter) int         { return g.Get() }
func gget(b Box[int]) int       { return b.V }
func pget(g interface{ PGet() int }) int { return g.PGet() }
func fid(f float64) float64     { return f }
func atoi(s string) int         { i, _ := strconv.Atoi(s); return i }
func at(l []int) int            { for i, v := range l { if v != 0 { return i } }; return -1 }
func mkRec(v int) Rec           { return MkRec(v) }
func mkRecP(v int) *Rec         { return MkRecP(v) }
func mkEmb(v int) Emb           { return Emb{Rec: MkRecP(v)} }

type Emb struct{ *Rec }
func (e Emb) Get() int   { return e.A }
func (e *Emb) PGet() int { return e.A }
func (e *Emb) Set(v int) { *e = mkEmb(v) }

var tab = func() []int { t := make([]int, 64); for i := range t { t[i] = i }; return t }()
'''


def ctx(tables):
    return {s: set(t) for s, t in tables.items()}


def text(tables, shape, c):
    return tables.get(shape, {}).get(c)


class Prog:
    """Go text of one behaviour"""

    def __init__(self, pid, steps, obs_base):
        self.pid, self.id0 = pid, obs_base
        self.tops = []       # top level functions of this program
        self.buf = [[]]
        self.stack = []
        self.expect = []     # (id, value, step)
        self.nt = 0
        self.types = {}
        for i, s in enumerate(steps):
            self.step(i, s["cmd"], s["obs"])
        while self.stack:
            self.close()
        self.tops.append("func prog%d() {\n%s\n}" % (pid, "\n".join(self.buf[0])))

    def w(self, *lines):
        self.buf[-1].extend(lines)

    def t(self):
        self.nt += 1
        return "t%d" % self.nt

    def ref(self, n):
        if n in QUALS:
            self.nq = getattr(self, "nq", 0) + 1
            return "sub." + n
        return n

    def step(self, i, c, obs):
        op, k, n, v, s = c["op"], c["k"], c["n"], c["v"], c["s"]
        if op == "open":
            self.open(k, n, v)
        elif op == "close":
            self.close()
        elif op == "decl":
            self.decl(k, n, v)
        elif op in ("use", "write"):
            local = s != "no"
            shape = SHAPES[n]
            if n not in QUALS and local:
                shape = {"type": "localtype", "func": "localfunc", "recv": "localrecv"}.get(s, "localsub" if n == "sub" else "int")
            if op == "use":
                tpl = OWN[k[4:]] if k.startswith("own-") else READ[shape].get(k) or ADDR[shape][k]
                oid = self.id0 + len(self.expect)
                self.expect.append((oid, obs[1], i))
                self.emit(tpl, n, v, oid)
            else:
                tpl = WRITE[shape].get(k) or RMW[shape][k]
                self.emit(tpl, n, v, 0)
        elif op == "mock":
            sh = SHAPES[n]
            if sh == "anon":
                self.w("pushc(\"U\", mock.Patch(&U, func() UT { return mkU(%d) }))" % v)
            else:
                ty, mk = self.mocktype(n), self.make(n, v)
                self.w('pushc("%s", mock.Patch(&%s, func() %s { return %s }))' % (n, self.ref(n), ty, mk))
        elif op == "cancel":
            self.w('popc("%s")' % n)
        else:
            raise ValueError(op)

    def mocktype(self, n):
        if n == "ZP":
            return "*Qrec"
        if n == "ZT":
            return "Qrec"
        return TYPES[SHAPES[n]]

    def make(self, n, v):
        if n == "ZP":
            return "qmkp(%d)" % v
        if n == "ZT":
            return "qmk(%d)" % v
        return MAKE[SHAPES[n]].format(v=v)

    def emit(self, tpl, n, v, oid):
        r = self.ref(n)
        mk = {"ZT": "qmk", "ZP": "qmk"}.get(n, MK.get(n, ""))
        pmk = {"ZP": "qmkp"}.get(n, PMK.get(n, ""))
        body = tpl.format(n=r, v=v, id=oid, t=self.t(), mk=mk, pmk=pmk)
        self.w("{", body, "}") if self.braced(tpl) else self.w(body)

    def braced(self, tpl):
        # some statements cannot be jumped over or start with a label: give them a block
        return "goto" in tpl

    # ---- scopes
    def open(self, k, n, v):
        u = "_ = %s" % n
        end = ["}"]
        if k == "block": pre = ["{"]
        elif k == "if": pre = ["if idn(0) == 0 {"]
        elif k == "else": pre = ["if idn(0) == 1 {", "} else {"]
        elif k == "for": pre, end = ["for {"], ["break", "}"]
        elif k == "case": pre = ["switch {", "case true:"]
        elif k == "comm": pre = ["select {", "default:"]
        elif k == "labeled":
            t = self.t(); pre, end = ["%sl:" % t, "for {"], ["break %sl" % t, "}"]
        elif k == "func": pre, end = ["func() {"], ["}()"]
        elif k == "go":
            t = self.t()
            pre, end = ["{", "%s := make(chan int)" % t, "%sm := savec()" % t, "go func() {", "defer close(%s)" % t], ["}()", "<-%s" % t, "restorec(%sm)" % t, "}"]
        elif k == "ifinit": pre = ["if %s := %d; %s >= 0 {" % (n, v, n), u]
        elif k == "ifelse": pre = ["if %s := %d; %s < 0 {" % (n, v, n), "} else {", u]
        elif k == "elseif": pre = ["if %s := %d; %s < 0 {" % (n, v, n), "} else if %s >= 0 {" % n, u]
        elif k == "forinit": pre, end = ["for %s := %d; %s >= 0; %s++ {" % (n, v, n, n), u], ["break", "}"]
        elif k == "rangekey": pre = ["for %s := range []int{%d} {" % (n, v), u]
        elif k == "rangeval": pre = ["for _, %s := range []int{%d} {" % (n, v), u]
        elif k == "rangekv":
            t = self.t(); pre = ["for %s, %s := range map[int]int{%d: 0} {" % (n, t, v), u, "_ = %s" % t]
        elif k == "rangeint": pre = ["for %s := range 1 {" % n, u]
        elif k == "switchinit": pre = ["switch %s := %d; {" % (n, v), "default:", u]
        elif k == "switchtag": pre = ["switch %s := %d; %s {" % (n, v, n), "case %d:" % v, u]
        elif k == "typeswitch": pre = ["switch %s := interface{}(%d).(type) {" % (n, v), "case int:", u]
        elif k == "typeswitchinit":
            t = self.t(); pre = ["switch %s := interface{}(%d); %s := %s.(type) {" % (t, v, n, t), "case string:", u, "case int:", u]
        elif k == "select": pre = ["select {", "case %s := <-ch(%d):" % (n, v), u]
        elif k == "funcparam": pre, end = ["func(%s int) {" % n, u], ["}(%d)" % v]
        elif k == "funcresult": pre, end = ["func() (%s int) {" % n, "%s = %d" % (n, v)], ["return", "}()"]
        elif k == "deferparam": pre, end = ["func() {", "defer func(%s int) {" % n, u], ["}(%d)" % v, "}()"]
        elif k == "goparam":
            t = self.t()
            pre, end = ["{", "%s := make(chan int)" % t, "%sm := savec()" % t, "go func(%s int) {" % n, "defer close(%s)" % t, u], ["}(%d)" % v, "<-%s" % t, "restorec(%sm)" % t, "}"]
        elif k == "funclater": pre, end = ["func(_, %s int) {" % n, u], ["}(0, %d)" % v]
        elif k == "funcfirst": pre, end = ["func(%s, _ int) {" % n, u], ["}(%d, 0)" % v]
        elif k == "funcvariadic":
            t = self.t(); pre, end = ["func(%s int, %s ...int) {" % (n, t), u], ["}(%d)" % v]
        elif k == "funcreslater":
            t = self.t(); pre, end = ["func() (%s, %s int) {" % (t, n), "%s = %d" % (n, v)], ["return", "}()"]
        elif k == "methodvalue": pre, end = ["func() {", "%s := %d" % (n, v), u], ["}()"]
        elif k.startswith("top"):
            f = "prog%d_%s" % (self.pid, self.t())
            if k == "topparam":
                self.w("%s(%d)" % (f, v)); head = ["func %s(%s int) {" % (f, n)]
            elif k == "topresult":
                self.w("%s()" % f); head = ["func %s() (%s int) {" % (f, n), "%s = %d" % (n, v)]
            elif k == "toplater":
                self.w("%s(0, %d)" % (f, v)); head = ["func %s(zz, %s int) {" % (f, n)]
            elif k == "topreslater":
                self.w("%s()" % f); head = ["func %s() (zz, %s int) {" % (f, n), "%s = %d" % (n, v)]
            elif k == "topgeneric":
                self.w("%s(%d, 0)" % (f, v)); head = ["func %s[T any](%s int, zz T) {" % (f, n)]
            else:
                self.w("rint(%d).%s()" % (v, f)); head = ["func (%s rint) %s() {" % (n, f)]
            self.stack.append(("top", ["return", "}"] if k in ("topresult", "topreslater") else ["}"]))
            self.buf.append(head)
            return
        else:
            raise ValueError(k)
        self.w(*pre)
        self.stack.append((k, end))

    def close(self):
        k, end = self.stack.pop()
        self.w(*end)
        if k == "top":
            self.tops.append("\n".join(self.buf.pop()))

    def decl(self, f, n, v):
        u = "_ = %s" % n
        if n == "sub":
            ty = "struct {\nZ int\nA struct{ B int }\n}"
            lit = "%s{Z: %d, A: struct{ B int }{%d}}" % (ty, v, v)
            self.w(("sub := " if f == "define" else "var sub = ") + lit, "_ = sub")
            return
        t = self.t()
        self.w(*{
            "define": ["%s := %d" % (n, v), u],
            "define2": ["%s, %s := %d, 0" % (n, t, v), "_, _ = %s, %s" % (n, t)],
            "definelast": ["%s, %s := 0, %d" % (t, n, v), "_, _ = %s, %s" % (n, t)],
            "definecall": ["%s, _ := two(%d)" % (n, v), u],
            "defineok": ["%s, %s := map[int]int{0: %d}[0]" % (n, t, v), "_, _ = %s, %s" % (n, t)],
            "definefunc": ["%s := func() int { return %d }()" % (n, v), u],
            "var": ["var %s = %d" % (n, v), u],
            "vartyped": ["var %s int = %d" % (n, v), u],
            "var2": ["var %s, %s = 0, %d" % (t, n, v), "_, _ = %s, %s" % (n, t)],
            "vargroup": ["var (", "%s int" % t, "%s = %d" % (n, v), ")", "_, _ = %s, %s" % (n, t)],
            "varcall": ["var %s, _ = two(%d)" % (n, v), u],
            "zero": ["var %s int" % n, u],
            "selfdefine": ["%s := %s + 1" % (n, n), u],
            "selfpair": ["%s, %s := %s+1, 0" % (n, t, n), "_, _ = %s, %s" % (n, t)],
            "selfvar": ["var %s = %s + 1" % (n, n), u],
            "selftyped": ["var %s int = 1 + %s" % (n, n), u],
            "selfplain": ["%s := %s" % (n, n), "%s++" % n],
            "selfvarplain": ["var %s = %s" % (n, n), "%s++" % n],
            "selflast": ["%s, %s := 0, %s" % (t, n, n), "_ = %s" % t, "%s++" % n],
            "selfvarlast": ["var %s, %s = 0, %s+1" % (t, n, n), "_, _ = %s, %s" % (n, t)],
            "selfgroup": ["var (", "%s = %s" % (t, n), "%s = %s+1" % (n, t), ")", u],
            "constgroup": ["const (", "%s = iota" % t, "%s = %d" % (n, v), ")"],
            "const2": ["const %s, %s = 0, %d" % (t, n, v)],
            "typegroup": ["type (", "%s int" % t, "%s int" % n, ")"],
            "typealias": ["type %s = int" % n],
            "const": ["const %s = %d" % (n, v)],
            "type": ["type %s int" % n],
            "func": ["%s := func() int { return %d }" % (n, v), u],
        }[f])


DECL_FORMS = ["define", "define2", "definelast", "definecall", "defineok", "definefunc", "var", "vartyped", "var2", "vargroup", "varcall", "zero",
              "selfdefine", "selfpair", "selfvar", "selftyped", "selfplain", "selfvarplain", "selflast", "selfvarlast", "selfgroup",
              "const", "constgroup", "const2", "type", "typegroup", "typealias", "func"]
KINDS = ["ifinit", "ifelse", "elseif", "forinit", "rangekey", "rangeval", "rangekv", "rangeint", "switchinit", "switchtag",
         "typeswitch", "typeswitchinit", "select", "funcparam", "funcresult", "deferparam", "goparam", "topparam", "topresult", "toprecv",
         "topgeneric", "methodvalue", "funclater", "funcfirst", "funcreslater", "funcvariadic", "toplater", "topreslater", "block", "if", "else", "for", "case", "comm", "labeled", "func", "go"]


def constants():
    w = {k: set(WRITE[k]) | set(RMW.get(k, ())) for k in WRITE}
    shapes = set(READ) | set(WRITE)
    full = lambda t: {k: set(t.get(k, ())) for k in sorted(shapes)}
    return dict(Names=set(SHAPES), Shape=SHAPES, Quals=set(QUALS), Kinds=set(KINDS), ReadCtx=full(READ), AddrCtx=full(ADDR),
                WriteCtx=full(w), RmwCtx=full(RMW), OwnCtx={"own-" + k for k in OWN}, DeclForms=set(DECL_FORMS))


MAIN = '''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"

	"m/sub"

	"github.com/xhd2015/xgo/runtime/mock"
)
%(decls)s
type UT = struct {
	sync.Mutex
	mu  sync.Mutex
	a   int
	in  struct{ b int }
	num Num
}
type Qrec = sub.Rec

func qmk(v int) Qrec   { return sub.MkRec(v) }
func qmkp(v int) *Qrec { return sub.MkRecP(v) }
func mkU(v int) UT     { return UT{a: v, in: struct{ b int }{v}, num: Num(v)} }

var results [][3]int

func o(id, v int) {
	_, _, line, _ := runtime.Caller(1)
	results = append(results, [3]int{id, v, line})
}

var cancels = map[string][]func(){}

func pushc(n string, f func()) { cancels[n] = append(cancels[n], f) }
func popc(n string) {
	l := cancels[n]
	l[len(l)-1]()
	cancels[n] = l[:len(l)-1]
}
func savec() map[string]int {
	m := map[string]int{}
	for k, l := range cancels {
		m[k] = len(l)
	}
	return m
}
func restorec(m map[string]int) {
	for k := range cancels {
		cancels[k] = cancels[k][:m[k]]
	}
}

// only to have the variables of sub considered
func never() {
	mock.Patch(&sub.Z, func() int { return 0 })
	mock.Patch(&sub.ZT, func() sub.Rec { return sub.Rec{} })
	mock.Patch(&sub.ZP, func() *sub.Rec { return nil })
}

func reset() {
	X, Y, N, D, S, P, L, M = 1, 1, 1, 1, MkRec(1), MkRecP(1), []int{1}, map[string]int{"k": 1}
	R, F, I, G, E = [2]int{1}, func() int { return 1 }, Num(1), Box[int]{1}, mkEmb(1)
	U.a, U.in.b, U.num = 1, 1, 1
	sub.Z, sub.ZT, sub.ZP = 1, sub.MkRec(1), sub.MkRecP(1)
	cancels = map[string][]func(){}
}

func run(id int, f func()) {
	done := make(chan string)
	results = nil
	go func() {
		msg := "panic or exit"
		defer func() { done <- msg }()
		defer func() {
			if e := recover(); e != nil {
				msg = fmt.Sprint("panic: ", e)
			}
		}()
		reset()
		f()
		msg = ""
	}()
	msg := <-done
	b, _ := json.Marshal(map[string]interface{}{"prog": id, "obs": results, "err": msg})
	fmt.Fprintln(os.Stdout, string(b))
}

func main() {
	if len(os.Args) > 9 {
		never()
	}
%(calls)s
	fmt.Println("end")
}
'''


def own_methods():
    return "\n".join("func (o own) %s() int { return 7 }" % n for n in SHAPES if n not in QUALS and n != "sub")


def write(d, progs, module):
    """the programs as one main package below d"""
    import os
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    open(os.path.join(d, "sub/sub.go"), "w").write(SUB_GO)
    open(os.path.join(d, "go.mod"), "w").write(module)
    open(os.path.join(d, "main.go"), "w").write(MAIN % dict(decls=DECLS1, calls="\n".join("\trun(%d, prog%d)" % (p.pid, p.pid) for p in progs)))
    open(os.path.join(d, "decls.go"), "w").write("package main\n" + DECLS2 + LIB + REC_GO)
    open(os.path.join(d, "helpers.go"), "w").write('package main\n\nimport "strconv"\n' + HELPERS % dict(own=own_methods()))
    files = [[], []]
    for p in progs:
        for i, t in enumerate(p.tops):
            files[(p.pid + i) % 2].append(t)
    for i, l in enumerate(files):
        open(os.path.join(d, "progs%d.go" % i), "w").write(
            'package main\n\nimport (\n\t"fmt"\n\n\t%s"m/sub"\n\n\t"github.com/xhd2015/xgo/runtime/mock"\n)\n\nvar _ = fmt.Sprint\nvar _ sub.In\nvar _ = mock.Patch\n\n' % ("" if i == 0 else "sub ")
            + "\n\n".join(l) + "\n")
