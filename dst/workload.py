"""Workload: templates and data built from features of ttp, plus a corpus.

A feature contributes top level tags, a group and a generator of matching data
blocks.  ``make(rng, ...)`` combines several features into a template and makes
datums for it.  Everything lands as plain text in the case, so a replay file can
be read on its own.

flags:  carry   state is carried from datum to datum (documented)
        time    depends on the clock
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
_corpus = None

WORDS = ["alpha", "bravo", "core", "delta", "edge", "foxtrot", "golf", "hub", "india", "juliet", "kilo", "lima"]
ODD = ["a.b", "x+y", "v[1]", "(r)", "100%", "c:\\d", "p|q", "t*", "é1", "_u_", "0", "007"]


def w(r):
    return r.choice(WORDS) + str(r.randrange(30))


def phrase(r):
    return " ".join(r.choice(WORDS + ODD[:4]) for _ in range(r.randrange(2, 5)))


def ip(r):
    return "{}.{}.{}.{}".format(r.choice([10, 172, 192]), r.randrange(256), r.randrange(256), r.randrange(1, 255))


FEATURES = {}


def feature(*flags):
    def deco(f):
        FEATURES[f.__name__] = (f, set(flags))
        return f
    return deco


# each feature: f(n, r) -> (top tags, group text, block generator)
@feature()
def iface(n, r):
    return "", """<group name="iface{n}*">
interface{n} {{{{ name }}}}
 description {{{{ description | ORPHRASE }}}}
 ip address {{{{ ip | IP }}}}/{{{{ mask | to_int }}}}
 vrf {{{{ vrf }}}}
 shutdown {{{{ shut | set(True) }}}}
</group>""".format(n=n), lambda q: "interface{} {}\n".format(n, w(q)) + "".join(
        l for l in [" description {}\n".format(phrase(q)), " ip address {}/{}\n".format(ip(q), q.randrange(8, 33)),
                    " vrf {}\n".format(w(q)), " shutdown {}\n".format("now")] if q.random() < 0.7)


@feature()
def nested(n, r):
    star = r.choice(["", "*", "**"])
    return "", """<group name="bgp{n}{star}">
router{n} bgp {{{{ asn }}}}
 <group name="nei.{{{{ peer }}}}**">
 neighbor {{{{ peer }}}} remote-as {{{{ ras | to_int }}}}
 neighbor {{{{ peer }}}} weight {{{{ weight }}}}
  <group name="af*">
  family {{{{ af }}}}
   max {{{{ maxp | DIGIT }}}}
  </group>
 </group>
! {{{{ _end_ }}}}
</group>""".format(n=n, star=star), lambda q: "router{} bgp {}\n".format(n, q.randrange(1, 65000)) + "".join(
        " neighbor {0} remote-as {1}\n".format(ip(q), q.randrange(1, 9000))
        + "".join("  family {}\n   max {}\n".format(q.choice(["v4", "v6"]), q.randrange(99)) for _ in range(q.randrange(3)))
        for _ in range(q.randrange(1, 4))) + "!\n"


@feature()
def dynpath(n, r):
    return "", """<group name="vlans{n}.{{{{ vid }}}}">
vlan{n} {{{{ vid }}}}
 name {{{{ vname | default("none") }}}}
</group>""".format(n=n), lambda q: "vlan{} {}\n".format(n, q.randrange(1, 20)) + (" name {}\n".format(w(q)) if q.random() < 0.6 else "")


@feature()
def vars_set(n, r):
    return """<vars name="meta{n}.info">
host{n} = "{h}"
site{n} = "{s}"
</vars>""".format(n=n, h=w(r), s=w(r)), """<group name="sv{n}*">
srv{n} {{{{ srv }}}}
{{{{ site | set("site{n}") }}}}
{{{{ kind | set("fixed") }}}}
 addr {{{{ addr | let("family", "ipv4") }}}}
</group>""".format(n=n), lambda q: "srv{} {}\n addr {}\n".format(n, w(q), ip(q))


@feature()
def getters(n, r):
    return """<vars>
hn{n} = "gethostname"
fn{n} = "getfilename"
</vars>""".format(n=n), """<group name="hn{n}*">
thing{n} {{{{ thing }}}}
{{{{ host | set("hn{n}") }}}}
{{{{ file | set("fn{n}") }}}}
</group>""".format(n=n), lambda q: "{}#\n".format(w(q)) * (q.random() < 0.5) + "thing{} {}\n".format(n, w(q))


@feature()
def lookup_csv(n, r):
    rows = "".join("{},{},{}\n".format(a, w(r), ip(r)) for a in WORDS[:6])
    return """<lookup name="lk{n}" load="csv" key="id">
id,owner,addr
{rows}</lookup>""".format(n=n, rows=rows), """<group name="look{n}*">
asset{n} {{{{ asset | lookup("lk{n}", add_field="details") }}}} rack {{{{ rack | ROW }}}}
 owner {{{{ own | rlookup("lk{n}.{k}") }}}}
</group>""".format(n=n, k=r.choice(WORDS[:3])), lambda q: "asset{} {} rack {}\n".format(n, q.choice(WORDS[:8]), w(q))


@feature()
def lookup_ini(n, r):
    return """<lookup name="ini{n}" load="ini">
[r1]
65100 = {a}
65200 = {b}
[r2]
65300 = {c}
</lookup>""".format(n=n, a=w(r), b=w(r), c=w(r)), """<group name="inil{n}*">
peer{n} {{{{ peer }}}} as {{{{ asn | lookup("ini{n}.r1") }}}}
</group>""".format(n=n), lambda q: "peer{} {} as {}\n".format(n, ip(q), q.choice(["65100", "65200", "65300"]))


@feature()
def macros(n, r):
    a, b = r.sample(["up", "rev", "pre"], 2)
    body = {"up": "return data.upper()", "rev": "return data[::-1]", "pre": "return 'pre_' + data"}
    # each macro tag has its own globals, also if they have the same names
    return """<macro>
AFFIX = "{p}"

def helper(data):
    return AFFIX + data

def hlp{n}(data):
    return helper(data)

def mac{n}(data):
    {x}
</macro>
<macro>
AFFIX = "{q}"

def helper(data):
    return data + AFFIX

def mac{n}(data):
    {y}

def chk{n}(data):
    if data.startswith("A") or data.startswith("a"):
        return False
    return data, {{"len": len(data)}}

def grp{n}(data):
    data["seen"] = sorted(data) + [helper("s")]
    if data.get("drop"):
        return False
    return data
</macro>""".format(n=n, x=body[a], y=body[b], p=w(r), q=w(r)), """<group name="mac{n}*" macro="grp{n}">
item{n} {{{{ item | macro("mac{n}") }}}} val {{{{ val | macro("chk{n}") }}}}
 drop {{{{ drop }}}}
 helped {{{{ helped | macro("hlp{n}") }}}}
</group>""".format(n=n), lambda q: "item{} {} val {}\n".format(n, w(q), w(q)) + (" drop x\n" if q.random() < 0.2 else "") + (" helped {}\n".format(w(q)) if q.random() < 0.4 else "")


@feature()
def joins(n, r):
    return "", """<group name="join{n}*">
acl{n} {{{{ acl }}}}
 permit {{{{ nets | joinmatches("{sep}") }}}}
 vlan {{{{ vl | unrange("-", ",") | split(",") | joinmatches }}}}
 words {{{{ words | ORPHRASE | to_list | joinmatches }}}}
</group>""".format(n=n, sep=r.choice([",", ";", " "])), lambda q: "acl{} {}\n".format(n, w(q)) + "".join(
        q.choice([" permit {}\n".format(ip(q)), " vlan {}-{}\n".format(q.randrange(5), q.randrange(5, 9)), " words {}\n".format(phrase(q))])
        for _ in range(q.randrange(5)))


@feature()
def linecap(n, r):
    return "", """<group name="cfg{n}*">
begin{n} {{{{ name | _start_ }}}}
{{{{ body | _line_ | contains("set") | joinmatches }}}}
done{n} {{{{ _end_ }}}}
</group>""".format(n=n), lambda q: "begin{} {}\n".format(n, w(q)) + "".join(
        "{} {}\n".format(q.choice(["set", "get", " set"]), phrase(q)) for _ in range(q.randrange(4))) + "done{}\n".format(n)


@feature()
def headers(n, r):
    return "", """<group name="tbl{n}*">
Port{n}      Name        Status   Vlan   {{{{ _headers_ }}}}
</group>""".format(n=n), lambda q: "Port{}      Name        Status   Vlan   \n".format(n) + "".join(
        "{:<11}{:<12}{:<9}{:<7}\n".format("Gi1/{}".format(q.randrange(9)), q.choice(["srv", "cli", ""]), q.choice(["up", "down"]), q.randrange(99))
        for _ in range(q.randrange(1, 4)))


@feature()
def group_funcs(n, r):
    f = r.choice(['contains="mtu"', 'containsall="mtu, desc"', 'exclude="bad"', 'equal="mtu, 1500"', 'excludeall="bad, desc"',
                  'exclude_val="mtu, \'9000\'"', 'contains_val="mtu, \'1500\'"'])
    return "", """<group name="gf{n}*" {f} void="">
port{n} {{{{ port }}}}
 mtu {{{{ mtu }}}}
 desc {{{{ desc | ORPHRASE }}}}
 bad {{{{ bad }}}}
</group>""".format(n=n, f=f).replace(' void=""', ""), lambda q: "port{} {}\n".format(n, w(q)) + "".join(
        l for l in [" mtu {}\n".format(q.choice(["1500", "9000"])), " desc {}\n".format(phrase(q)), " bad {}\n".format(w(q))] if q.random() < 0.55)


@feature()
def group_xform(n, r):
    f = r.choice(['to_int="a, b"', 'sformat="string=\'{a}-{b}\', add_field=\'ab\'"', 'del="a"', 'set="fixedvar, c"',
                  'to_ip="d, b"', 'functions="to_int(a) | sformat(\'{a}_{b}\', \'j\') | del(b)"'])
    return "<vars>\nfixedvar = 'fv{}'\n</vars>".format(n), """<group name="gx{n}*" {f}>
rec{n} {{{{ a }}}} {{{{ b }}}} {{{{ d }}}}
</group>""".format(n=n, f=f), lambda q: "rec{} {} {} {}\n".format(n, q.randrange(100), q.choice(["7", "x"]), ip(q))


@feature()
def itemize(n, r):
    return "", """<group name="names{n}" itemize="key='nm', path='allnames{n}.lst'">
nm{n} {{{{ nm }}}}
</group>""".format(n=n), lambda q: "nm{} {}\n".format(n, w(q))


@feature()
def expand(n, r):
    return "", """<group name="exp{n}*" expand="">
exp{n} {{{{ top.name }}}}
 speed {{{{ top.link.speed }}}}
 mode {{{{ mode }}}}
</group>""".format(n=n), lambda q: "exp{} {}\n speed {}\n".format(n, w(q), q.randrange(100)) + (" mode {}\n".format(w(q)) if q.random() < 0.5 else "")


@feature()
def items2dict(n, r):
    return "", """<group name="i2d{n}*" items2dict="k, v">
kv{n} {{{{ k }}}} = {{{{ v }}}}
</group>""".format(n=n), lambda q: "kv{} {} = {}\n".format(n, w(q), w(q))


@feature()
def match_ip(n, r):
    f = r.choice(["to_ip | to_str", "is_ip", "to_net | strict=False" if False else "is_ip", "cidr_match('10.0.0.0/8')", "to_cidr" if False else "is_ip"])
    return "", """<group name="mip{n}*">
net{n} {{{{ net | {f} }}}} via {{{{ gw }}}}
</group>""".format(n=n, f=f), lambda q: "net{} {} via {}\n".format(n, q.choice([ip(q), "10.1.1.{}".format(q.randrange(250)), "10.1.1.{}/24".format(q.randrange(250))]), w(q))


@feature()
def match_str(n, r):
    f = r.choice(["upper", "lower | replaceall('a', '_')", "strip('a') | append('_z')", "prepend('p_')", "resub('[0-9]+', 'N')", "sformat('-{}-')",
                  "truncate(1)", "split('a') | item(0)", "title", "print"]).replace("{}", "{{}}" if False else "{}")
    if f == "print":
        f = "upper | lower"
    return "", ("""<group name="mst@*">
str@ {{ s | PHRASE | """ + f + """ }} end
cnt@ {{ c | count(var="cc@") }}
</group>""").replace("@", str(n)), lambda q: "str{} {} {} end\n".format(n, w(q), w(q))


@feature()
def match_cond(n, r):
    f = r.choice(['contains("a")', 'startswith_re("[ab]")', 'endswith_re("[0-4]")', 'contains_re("r")', 'exclude("core")',
                  'notequal("alpha1")', 'greaterthan("50")', 'lessthan("50")', 'isdigit', 'notdigit'])
    return "", """<group name="mc{n}*">
cond{n} {{{{ c | {f} }}}} {{{{ rest }}}}
</group>
""".format(n=n, f=f), lambda q: "cond{} {} {}\n".format(n, str(q.randrange(100)) if "than" in f else q.choice([w(q), str(q.randrange(100))]), w(q))


@feature()
def mac_uptime(n, r):
    return "", """<group name="mu{n}*">
mac{n} {{{{ mac | mac_eui }}}} up {{{{ up | PHRASE | uptimeparse }}}} ago
</group>""".format(n=n), lambda q: "mac{} {} up {} weeks, {} days, {} hours ago\n".format(
        n, q.choice(["aabb.ccdd.ee0{}".format(q.randrange(9)), "aa:bb:cc:dd:ee:0{}".format(q.randrange(9))]), q.randrange(9), q.randrange(6), q.randrange(20))


@feature()
def defaults(n, r):
    return "<vars>\ndv{n} = ['x', 'y']\n</vars>".format(n=n), """<group name="def{n}" default="dflt">
dd{n} {{{{ a | default("A") }}}}
 bb {{{{ b }}}}
 cc {{{{ c | default("dv{n}") }}}}
 <group name="sub*">
 ee {{{{ e | default(["l"]) }}}}
 </group>
</group>""".format(n=n), lambda q: "dd{} {}\n".format(n, w(q)) * (q.random() < 0.7) + (" bb {}\n".format(w(q)) if q.random() < 0.5 else "") + (
        " ee {}\n".format(w(q)) if q.random() < 0.4 else "")


@feature()
def tomany(n, r):
    return "", """<group name="cv{n}*">
cv{n} {{{{ i | to_int }}}} {{{{ f | to_float }}}} {{{{ s | to_str }}}} {{{{ l | to_list }}}} {{{{ un | copy("dup") | void("") }}}}
</group>""".format(n=n).replace(' | void("")', ""), lambda q: "cv{} {} {} {} {} {}\n".format(n, q.randrange(99), q.choice(["1.5", "2", "33"]), w(q), w(q), w(q))


@feature()
def cerberus(n, r):
    return """<vars>
sch{n} = {{"a": {{"type": "string", "allowed": ["alpha1", "core2"]}}, "b": {{"type": "string"}}}}
</vars>""".format(n=n), """<group name="cer{n}*" {f}>
cer{n} {{{{ a }}}} {{{{ b }}}}
</group>""".format(n=n, f='cerberus="sch{}"'.format(n)), lambda q: "cer{} {} {}\n".format(n, q.choice(["alpha1", "core2", w(q)]), w(q))


@feature()
def start_multi(n, r):
    return "", """<group name="sm{n}*">
first{n} {{{{ x | _start_ }}}} a
first{n} {{{{ x | _start_ }}}} b
{{{{ flag | set("seen") }}}}
 tail {{{{ t | ORPHRASE | _exact_ }}}}
</group>""".format(n=n), lambda q: "first{} {} {}\n tail {}\n".format(n, w(q), q.choice("abc"), phrase(q))


@feature()
def pathfmt(n, r):
    return "", """<group name="pf{n}.one**.two*">
pf{n} {{{{ a }}}}
 <group name="/abs{n}.{{{{ b }}}}*">
 pb {{{{ b }}}} {{{{ c }}}}
 </group>
</group>""".format(n=n), lambda q: "pf{} {}\n".format(n, w(q)) + " pb {} {}\n".format(q.choice(WORDS), w(q)) * q.randrange(3)


@feature()
def ignorepat(n, r):
    return "<vars>\nign{n} = r\"\\S+ \\S+\"\n</vars>".format(n=n), """<group name="ig{n}*">
ig{n} {{{{ ignore("ign{n}") }}}} {{{{ a }}}} {{{{ ignore }}}}
 sub {{{{ ignore(r"\\d+") }}}} {{{{ b | re(r"[a-z]+") }}}}
</group>""".format(n=n), lambda q: "ig{} {} {} {} {}\n sub {} {}\n".format(n, w(q), w(q), w(q), w(q), q.randrange(99), q.choice(WORDS))


@feature("carry")
def recorder(n, r):
    return "", """<group name="rc{n}*">
host{n} {{{{ h | record("H{n}") }}}}
</group>
<group name="ru{n}*">
use{n} {{{{ u }}}}
{{{{ host | set("H{n}") }}}}
</group>""".format(n=n), lambda q: ("host{} {}\n".format(n, w(q)) if q.random() < 0.6 else "") + "use{} {}\n".format(n, w(q))


@feature("carry")
def group_record(n, r):
    return "", """<group name="gr{n}*" record="k, GK{n}">
key{n} {{{{ k }}}}
</group>
<group name="gs{n}*" set="GK{n}, key, none">
usek{n} {{{{ u }}}}
</group>""".format(n=n), lambda q: ("key{} {}\n".format(n, w(q)) if q.random() < 0.6 else "") + "usek{} {}\n".format(n, w(q))


@feature("carry")
def counter(n, r):
    return "", """<group name="ct{n}*">
ct{n} {{{{ c | count(var="cv{n}", globvar="cg{n}") }}}}
{{{{ total | set("cg{n}") }}}}
</group>""".format(n=n), lambda q: "ct{} {}\n".format(n, w(q)) * q.randrange(1, 3)


@feature("carry")
def gplookup(n, r):
    return "", """<group name="arp{n}.{{{{ mac }}}}">
arp{n} {{{{ ip }}}} {{{{ mac }}}}
</group>
<group name="port{n}*" lookup="mac, group='arp{n}', update=True">
portm{n} {{{{ port }}}} {{{{ mac }}}}
</group>""".format(n=n), lambda q: "".join("arp{} {} mac{}\n".format(n, ip(q), i) for i in range(2)) + "portm{} {} mac{}\n".format(n, w(q), q.randrange(3))


@feature("carry")
def macro_state(n, r):
    """macros that remember what they saw: each template's own code, so each template's own memory"""
    return """<macro>
seen = []
box = {{"n": {k}}}

def remember(data):
    seen.append(data)
    box["n"] += 1
    return data, {{"nr": box["n"], "first": seen[0], "all": len(seen)}}
</macro>""".format(k=r.choice([0, 0, 10])), """<group name="mst{n}*">
mst{n} {{{{ a | macro("remember") }}}}
</group>""".format(n=n), lambda q: "mst{} {}\n".format(n, w(q)) * q.randrange(1, 3)


# features whose variables, tables and macros have the same name in every
# template while what they hold differs
@feature()
def const_re(n, r):
    p = r.choice([r"[a-f]\\S+", r"\\S+[0-4]", r"\\S*o\\S*", r"[a-z]+[0-9]", r"[g-l]\\S*"])
    return """<vars>
PORT = "{p}"
WHAT = "{c}"
OLD = {o}
</vars>""".format(p=p, c=r.choice("aeio"), o=r.choice(["['a', 'e']", "{'N': ['1', '2'], 'X': 'o'}", "['core', 'hub']"])), """<group name="cre{n}*">
cre{n} {{{{ name | re("PORT") }}}} {{{{ rest }}}}
 mid {{{{ mid | contains("WHAT") }}}}
 low {{{{ low | startswith_re("WHAT") }}}}
 new {{{{ new | replaceall("_", "OLD") | append("WHAT") }}}}
 sub {{{{ sub | resuball("OLD") | notequal("WHAT") }}}}
</group>""".format(n=n), lambda q: "cre{} {} {}\n".format(n, w(q), w(q)) + "".join(
        l for l in [" mid {}\n".format(w(q)), " low {}\n".format(w(q)), " new {}\n".format(w(q)), " sub {}\n".format(w(q))] if q.random() < 0.6)


@feature()
def const_chain(n, r):
    return """<vars>
CH = {c}
GCH = {g}
DD = {d}
DV = "{v}"
</vars>""".format(c=r.choice(["['upper']", "['lower', 'append(\"z\")']", "'WORD | prepend(\"q\") | upper'", "['contains(\"a\")', 'title']"]),
                  g=r.choice(["['to_int(b)', 'contains(a)']", "['del(b)']", "['sformat(\"{a}!{b}\", \"ab\")']"]),
                  d="{'a': '%s', 'b': %d}" % (w(r), r.randrange(9)), v=w(r)), """<group name="cch{n}*" functions="{f}" default="DD">
cch{n} {{{{ a | chain("CH") }}}} {{{{ b }}}}
 opt {{{{ opt | default("DV") }}}}
 {{{{ kind | set("DV") }}}}
</group>
<group name="cgc{n}*" chain="GCH">
cgc{n} {{{{ a }}}} {{{{ b }}}}
</group>""".format(n=n, f=r.choice(["contains('a')", "to_int('b')", "sformat('[{a}]', 'x')"])), lambda q: q.choice(
        ["cch{} {} {}\n".format(n, w(q), q.randrange(99)) + (" opt {}\n".format(w(q)) if q.random() < 0.5 else ""),
         "cgc{} {} {}\n".format(n, w(q), q.randrange(99))])


@feature()
def const_table(n, r):
    rows = "".join("{},{}\n".format(a, w(r)) for a in r.sample(WORDS, 6))
    return """<lookup name="TABLE" load="csv" key="id">
id,owner
{rows}</lookup>
<lookup name="GLOB" load="python">
{{"one": ["{a}*", "*{b}"], "two": ["*o*"]}}
</lookup>
<macro>
def mconst(data):
    return "{m}" + data
</macro>""".format(rows=rows, a=r.choice("abcd"), b=r.randrange(9), m=w(r)), """<group name="ctb{n}*">
ctb{n} {{{{ a | lookup("TABLE", add_field="info") }}}} {{{{ b | macro("mconst") }}}}
 glob {{{{ g | gpvlookup("GLOB", multimatch={mm}, add_field="gl") }}}}
</group>""".format(n=n, mm=r.choice(["True", "False"])), lambda q: "ctb{} {} {}\n".format(n, q.choice(WORDS), w(q)) + (
        " glob {}\n".format(w(q)) if q.random() < 0.6 else "")


@feature()
def checked(n, r):
    return """<vars>
SCH = {{"a": {{"type": "string", "allowed": {al}}}, "b": {{"type": "{t}"}}}}
</vars>""".format(al=sorted(r.sample(WORDS, 4)), t=r.choice(["string", "integer"])), """<group name="chk{n}*" validate="schema='SCH', result='valid', errors='errs', info='{{a}} is checked'">
chk{n} {{{{ a }}}} {{{{ b }}}}
</group>""".format(n=n), lambda q: "chk{} {} {}\n".format(n, q.choice(WORDS), w(q))


@feature()
def ipinfo(n, r):
    return "<vars>\nNETS = '{}'\n</vars>".format(r.choice(["10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16"])), """<group name="ipi{n}*">
ipi{n} {{{{ addr | cidr_match("NETS") }}}} {{{{ other | ip_info }}}}
</group>""".format(n=n), lambda q: "ipi{} {} {}\n".format(n, ip(q), q.choice([ip(q), ip(q) + "/24", "none"]))


@feature("carry")
def glob_record(n, r):
    return """<lookup name="GREC" load="python">
{{"first": ["a*", "b*"], "second": ["*{}"]}}
</lookup>""".format(r.randrange(9)), """<group name="gre{n}*">
gre{n} {{{{ a | gpvlookup("GREC", record="GR{n}") }}}}
</group>
<group name="gru{n}*">
gru{n} {{{{ u }}}}
{{{{ who | set("GR{n}") }}}}
</group>""".format(n=n), lambda q: ("gre{} {}\n".format(n, w(q)) if q.random() < 0.6 else "") + "gru{} {}\n".format(n, w(q))


@feature()
def named_vars(n, r):
    names = r.sample(["aa", "bb", "cc", "Aa", "dd.x", "dd.y", "Dd.x"], r.randrange(2, 6))
    return "".join('<vars name="{k}{n}">\nnv{i}_{n} = "{v}"\nshared{n} = "{i}"\n</vars>\n'.format(k=k.replace(".", str(n) + ".") if "." in k else k, n=n, i=i, v=w(r))
                   for i, k in enumerate(names)), """<group name="nv{n}*">
nvl{n} {{{{ a }}}}
{{{{ b | set("nv0_{n}") }}}}
{{{{ c | set("shared{n}") }}}}
</group>""".format(n=n), lambda q: "nvl{} {}\n".format(n, w(q))


@feature()
def columns(n, r):
    names = r.sample(["mtu", "MTU", "Mtu", "mtU", "spd", "SPD", "adr", "Adr"], r.randrange(3, 7))
    return "", """<group name="col{n}*">
col{n} {{{{ port }}}}
{lines}
</group>""".format(n=n, lines="\n".join(" {0} {{{{ {0} }}}}".format(i) for i in names)), lambda q: "col{} {}\n".format(n, w(q)) + "".join(
        " {} {}\n".format(i, w(q)) for i in names if q.random() < 0.8)


@feature()
def loaded(n, r):
    kind = r.choice(["yaml", "json", "ini", "csv", "python"])
    a, b, c = w(r), w(r), r.randrange(99)
    text = {"yaml": "va{n}: {a}\nvl{n}: [x, y]\nvd{n}:\n  k: {b}\n  n: {c}", "json": '{{"va{n}": "{a}", "vl{n}": ["x", "y"], "vd{n}": {{"k": "{b}", "n": {c}}}}}',
            "ini": "[vd{n}]\nk = {b}\nn = {c}\n[vl{n}]\nx = y", "csv": "id,k,n\nva{n},{a},1\nvd{n},{b},{c}", "python": 'va{n} = "{a}"\nvl{n} = ["x", "y"]\nvd{n} = {{"k": "{b}", "n": {c}}}'}[kind]
    return '<vars load="{}">\n{}\n</vars>'.format(kind, text.format(n=n, a=a, b=b, c=c)), """<group name="ld{n}*">
ldl{n} {{{{ a }}}}
{{{{ va | set("va{n}") }}}}
{{{{ vd | set("vd{n}") }}}}
 opt {{{{ b | default("vl{n}") }}}}
</group>""".format(n=n), lambda q: "ldl{} {}\n".format(n, w(q)) + (" opt {}\n".format(w(q)) if q.random() < 0.5 else "")


@feature()
def lookup_other(n, r):
    kind = r.choice(["yaml", "json", "python"])
    text = {"yaml": "alpha1:\n  own: {a}\n  tags: [p, q]\ncore2: {b}\nsub:\n  hub3: {a}", "json": '{{"alpha1": {{"own": "{a}", "tags": ["p", "q"]}}, "core2": "{b}", "sub": {{"hub3": "{a}"}}}}',
            "python": "alpha1 = {{'own': '{a}', 'tags': ['p', 'q']}}\ncore2 = '{b}'\nsub = {{'hub3': '{a}'}}"}[kind]
    return '<lookup name="lo{}" load="{}">\n{}\n</lookup>'.format(n, kind, text.format(a=w(r), b=w(r))), """<group name="lot{n}*">
lo{n} {{{{ a | lookup("lo{n}") }}}} {{{{ b | lookup("lo{n}.sub", add_field="found") }}}}
</group>""".format(n=n), lambda q: "lo{} {} {}\n".format(n, q.choice(["alpha1", "core2", "hub3", w(q)]), q.choice(["hub3", w(q)]))


@feature()
def shared_lists(n, r):
    """values that are lists and dictionaries of tables, variables and defaults, joined, merged into and changed by macros"""
    return """<lookup name="sl{n}" load="python">
{{"alpha1": ["x", "y"], "core2": ["z"], "hub3": {{"k": ["v"]}}, "edge4": {{"deep": {{"a": "b"}}}}}}
</lookup>
<vars>
sll{n} = ["q", "{v}"]
sld{n} = {{"k": ["v"], "in": {{"x": "{v}"}}}}
sldef{n} = {{"peers": [], "opts": {{}}, "tag": ["none"]}}
</vars>
<macro>
def slm{n}(data):
    if isinstance(data, list):
        data.append("added")
    elif isinstance(data, dict):
        data.setdefault("seen", []).append("m")
        for i in data.values():
            if isinstance(i, list):
                i.append("in")
    return data
</macro>""".format(n=n, v=w(r)), """<group name="shl{n}*" {attr}>
shl{n} {{{{ name }}}}
 tag{n} {{{{ t | lookup("sl{n}") | {fn1} }}}}
 fld{n} {{{{ f | lookup("sl{n}", add_field="info") }}}}
 flag{n} {{{{ g | set("sll{n}") | {fn2} }}}}
 lit{n} {{{{ l | let("lits", ["one", "two"]) | let("lith", {{"a": []}}) }}}}
{{{{ dd | set("sld{n}") }}}}
<group name="peers*">
 peer{n} {{{{ p }}}}
</group>
<group name="{sub}">
 opt{n} {{{{ o }}}}
</group>
</group>""".format(n=n, fn1=r.choice(["joinmatches", "joinmatches", 'macro("slm%d")' % n]), fn2=r.choice(["joinmatches", 'macro("slm%d")' % n]),
                   sub=r.choice(["opts", "info", "lith.a*", "dd.in", "lits*"]),
                   attr=r.choice(["", 'default="sldef{}"'.format(n), 'macro="slm{}"'.format(n), 'lookup="\'name\', name=\'sl{}\', add_field=\'grow\'" macro="slm{}"'.format(n, n),
                                  'set="sld{}, target=cc" macro="slm{}"'.format(n, n), 'functions="set(sll{}, target=peers) | macro(slm{})"'.format(n, n)])), \
        lambda q: "shl{} {}\n".format(n, q.choice(["alpha1", "hub3", w(q)])) + "".join(q.choice([
            " tag{} {}\n".format(n, q.choice(["alpha1", "core2", "core2"])), " fld{} {}\n".format(n, q.choice(["alpha1", "hub3", "edge4"])), " flag{}\n".format(n),
            " lit{} {}\n".format(n, w(q)), " peer{} {}\n".format(n, w(q)), " opt{} {}\n".format(n, w(q))]) for _ in range(q.randrange(7)))


@feature()
def var_path(n, r):
    """groups that save into the place where variables are saved"""
    return '<vars name="vp{n}">\nvpd{n} = {{"a": {{"b": "{v}"}}, "l": ["{v}"]}}\nvpl{n} = ["{v}"]\n</vars>'.format(n=n, v=w(r)), """<group name="vp{n}.{sub}">
vpl{n} {{{{ a }}}} {{{{ b }}}}
</group>""".format(n=n, sub=r.choice(["vpd{}".format(n), "vpd{}.a".format(n), "vpl{}*".format(n), "new*", "vpd{}.l*".format(n)])), lambda q: "vpl{} {} {}\n".format(n, w(q), w(q))


# ---------------------------------------------------------------- whole cases
OUTPUTS = [
    '<output format="json" returner="self"/>',
    '<output format="yaml" returner="self"/>',
    '<output format="pprint" returner="self"/>',
    '<output format="csv" returner="self" path="{p}" missing="-"/>',
    '<output format="table" returner="self" path="{p}"/>',
    '<output format="tabulate" returner="self" path="{p}"/>',
    '<output dict_to_list="key_name=\'kk\', path=\'{p}\'"/>',
    '<output traverse="path=\'{p}\', strict=False"/>',
    '<output name="cond" condition="ovar, yes" format="json" returner="self"/>',
    '<output macro="outmac"/>',
    '<output name="eq" load="json" is_equal="">\n[{{"x": 1}}]\n</output>',
    '<output format="jinja2" returner="self">\n{{% for i in _data_ %}}{{{{ i }}}}\n{{% endfor %}}\n</output>',
]
OUTMACRO = "<macro>\ndef outmac(data):\n    return {'n': len(data), 'data': data}\n</macro>"


def noise(r):
    return "".join(r.choice(["!\n", "some unrelated text {}\n".format(w(r)), "\n", "# comment ({})\n".format(r.choice(ODD))]) for _ in range(r.randrange(3)))


def datum(r, gens, empty=0.08, maxblocks=7):
    if r.random() < empty:
        return r.choice(["", "nothing here\n", "\n\n"]) or "none\n"
    out = [noise(r)]
    for _ in range(r.randrange(1, maxblocks)):
        out.append(r.choice(gens)(r))
        if r.random() < 0.3:
            out.append(noise(r))
    return "".join(out)


def make(r, carry=False, nfeat=None, output=0.35, group_output=0.2, datums=None, only=None, like=None, commands=0.06):
    """a template with its data: {"template", "data", "flags", "features"}"""
    names = [k for k, (f, fl) in FEATURES.items() if (carry or "carry" not in fl) and (only is None or k in only)]
    k = nfeat or r.choice([1, 1, 2, 2, 3, 4])
    picked = [r.choice(names) for _ in range(k)]
    if carry and r.random() < 0.7:
        picked[0] = r.choice([k for k, (f, fl) in FEATURES.items() if "carry" in fl])
    if like:
        picked = list(like)
    tops, groups, gens = [], [], []
    for n, name in enumerate(picked):
        t, g, gen = FEATURES[name][0](n, r)
        tops.append(t)
        groups.append(g)
        gens.append(gen)
    text = ""
    has_out = False
    p = "*"
    if r.random() < output:
        has_out = True
        o = r.choice(OUTPUTS)
        first = groups[0].split('name="', 1)[1].split('"', 1)[0].split(".")[0].rstrip("*")
        p = first
        o = o.format(p=p)
        if "outmac" in o:
            tops.append(OUTMACRO)
        if "ovar" in o:
            tops.append("<vars>\novar = '{}'\n</vars>".format(r.choice(["yes", "no"])))
        text += "\n" + o + "\n"
    if r.random() < group_output:
        i = r.randrange(len(groups))
        fmt = r.choice(["json", "yaml", "raw", "pprint"])
        fn = r.choice(["", ' macro="gomac"', ""])
        if fn:
            tops.append("<macro>\ndef gomac(data):\n    return {'wrapped': data}\n</macro>")
        groups[i] = groups[i].replace("<group ", '<group output="go" ', 1)
        text += '\n<output name="go" format="{}" returner="self"{}/>\n'.format(fmt, fn)
        has_out = True
    nd = datums if datums is not None else r.choice([0, 1, 2, 2, 3, 4, 6])
    data = [datum(r, gens) for _ in range(nd)]
    if r.random() < commands:
        # output of some commands only
        how = r.choice(['commands="show alpha, show core"', 'functions="extract_commands(\'show alpha\')"', "test=''", "functions=\"macro('instop') | macro('inmore')\"",
                        "functions=\"macro('instop') | extract_commands('show core')\"", 'macro="inmore"'])
        if "macro" in how:
            tops.append("""<macro>
def instop(data):
    if "core" in data:
        return False
    if "golf" in data:
        return None
    return "\\n" + data

def inmore(data):
    return data + "\\n" + data.replace("show", "list")
</macro>""")
        tops.append('<input name="Default_Input" {}/>'.format(how))
        data = ["box{0}#show {1}\n{2}box{0}#\n".format(i, r.choice(["alpha", "core", "hub"]), d) for i, d in enumerate(data)]
    template = "\n".join([t for t in tops if t] + groups) + text
    flags = set()
    for name in picked:
        flags |= FEATURES[name][1]
    if has_out:
        flags.add("output")
    return {"template": template, "data": data, "flags": sorted(flags), "features": picked,
            "parts": [t for t in tops if t] + groups + ([text.strip()] if text.strip() else [])}


def corpus():
    global _corpus
    if _corpus is None:
        with open(os.path.join(HERE, "corpus.json"), encoding="utf-8") as f:
            _corpus = json.load(f)
    return _corpus


def vary(r, text):
    """another datum made out of a corpus datum"""
    lines = text.split("\n")
    how = r.randrange(6)
    if how == 0 or len(lines) < 3:
        return text
    if how == 1:
        return "\n".join(lines[: len(lines) // 2])
    if how == 2:
        return "\n".join(lines[len(lines) // 2:])
    if how == 3:
        i = r.randrange(len(lines))
        return "\n".join(lines[:i] + lines[i + 1:])
    if how == 4:
        return text + "\n" + text
    i, j = sorted((r.randrange(len(lines)), r.randrange(len(lines))))
    return "\n".join(lines[:i] + lines[j:]) or text


def from_corpus(r, forbid=("carry", "glookup", "per_template", "time"), datums=None):
    c = [e for e in corpus() if not set(e["flags"]) & set(forbid)]
    e = r.choice(c)
    nd = datums if datums is not None else r.choice([1, 2, 2, 3, 4])
    base = e["data"] or ["no data\n"]
    data = [vary(r, r.choice(base)) for _ in range(nd)]
    return {"template": e["template"], "data": data, "flags": e["flags"], "features": ["corpus:" + e["id"].split("::")[-1]],
            "vars": e["vars"], "dpk": e["dpk"]}
