// C26: the community_id processor stores the Community ID of the flow.
package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"net"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"

	"verif/mc"
	"verif/model"
	"verif/pr"
)

// communityID is version 1 of the specification for protocols with ports.
func communityID(seed uint16, src, dst net.IP, proto byte, sport, dport uint16) string {
	short := func(ip net.IP) []byte {
		if v4 := ip.To4(); v4 != nil {
			return v4
		}
		return ip.To16()
	}
	a, b := short(src), short(dst)
	if c := bytes.Compare(a, b); c > 0 || c == 0 && sport > dport {
		a, b, sport, dport = b, a, dport, sport
	}
	var buf bytes.Buffer
	binary.Write(&buf, binary.BigEndian, seed)
	buf.Write(a)
	buf.Write(b)
	buf.Write([]byte{proto, 0})
	binary.Write(&buf, binary.BigEndian, sport)
	binary.Write(&buf, binary.BigEndian, dport)
	sum := sha1.Sum(buf.Bytes())
	return "1:" + base64.StdEncoding.EncodeToString(sum[:])
}

type flow struct {
	src, dst     string
	sport, dport uint16
	proto        byte
	name         string
	useNumber    bool
}

// fields of a configuration: where the parts of a flow are.
type layout struct {
	opts                             pr.Opts
	sip, sport, dip, dport, iana, tr string
	target                           string
	seed                             uint16
}

func layouts() (out []layout) {
	base := layout{sip: "source.ip", sport: "source.port", dip: "destination.ip", dport: "destination.port", iana: "network.iana_number", tr: "network.transport", target: "network.community_id"}
	for _, seed := range []uint16{0, 1, 65535} {
		l := base
		l.seed = seed
		l.opts = pr.Opts{}
		if seed != 0 {
			l.opts["seed"] = int(seed)
		}
		out = append(out, l)
		l.target = "cid"
		l.opts = pr.Opts{"seed": int(seed), "target_field": "cid"}
		out = append(out, l)
	}
	c := layout{sip: "a", sport: "b.p", dip: "c", dport: "b.q", iana: "n", tr: "t", target: "b.id", seed: 7}
	c.opts = pr.Opts{"source_ip": "a", "source_port": "b.p", "destination_ip": "c", "destination_port": "b.q", "iana_number": "n", "transport": "t", "target_field": "b.id", "seed": 7, "ignore_failure": false}
	return append(out, c)
}

func put(m *model.Tree, key string, v *model.V) { m.Put(model.Path(key), v, true) }

func (l layout) tree(f flow, extra bool) *model.V {
	m := model.NewTree()
	put(m, l.sip, model.S(f.src))
	put(m, l.dip, model.S(f.dst))
	put(m, l.sport, model.U(uint64(f.sport)))
	put(m, l.dport, model.I(int64(f.dport)))
	if f.useNumber {
		put(m, l.iana, model.I(int64(f.proto)))
	} else {
		put(m, l.tr, model.S(f.name))
	}
	if extra {
		put(m, "other.x", model.A(model.S("y"), model.N()))
		put(m, l.target, model.S("old"))
	}
	return m.Root
}

func units(tier string, yield func(string, func(*mc.T)) bool) {
	ips4 := []string{"10.0.0.1", "10.0.0.2", "255.255.255.255", "1.2.3.4"}
	ips6 := []string{"fe80::1", "2001:db8::ff00:42:8329"}
	ports := []uint16{0, 80, 34855, 65535}
	if tier == "thorough" {
		ips4 = append(ips4, "0.0.0.0", "127.0.0.1", "192.168.0.255", "9.255.255.255")
		ips6 = append(ips6, "::1", "ff02::1", "::ffff:0:1")
		ports = append(ports, 1, 255, 256, 443, 32768)
	}
	for li, l := range layouts() {
		l := l
		if !yield(fmt.Sprintf("complete flows, layout %d", li), func(t *mc.T) {
			p := pr.New(t, "community_id", l.opts)
			for _, ips := range [][]string{ips4, ips6} {
				for _, s := range ips {
					for _, d := range ips {
						for _, sp := range ports {
							for _, dp := range ports {
								for _, pn := range []struct {
									n    byte
									name string
								}{{6, "tcp"}, {17, "udp"}, {132, "sctp"}} {
									for _, num := range []bool{false, true} {
										for _, extra := range []bool{false, true} {
											complete(t, p, l, flow{s, d, sp, dp, pn.n, pn.name, num}, extra)
										}
									}
								}
							}
						}
					}
				}
			}
		}) {
			return
		}
		// Many flows through one processor.
		for _, count := range model.Runs(3000) {
			count := count
			if !yield(fmt.Sprintf("%d flows, layout %d", count, li), func(t *mc.T) {
				p := pr.New(t, "community_id", l.opts)
				for k := 0; k < count; k++ {
					complete(t, p, l, flow{fmt.Sprintf("10.%d.%d.1", k>>8&255, k&255), "10.1.2.3", uint16(k), 80, 6, "tcp", k%2 == 0}, k%3 == 0)
				}
			}) {
				return
			}
		}
		// Flows of any other kind (ICMP, protocols without ports, odd spellings
		// and types): whatever happens, no field but the target changes.
		if !yield(fmt.Sprintf("other flows, layout %d", li), func(t *mc.T) {
			p := pr.New(t, "community_id", l.opts)
			vals := func(vs ...interface{}) (out []*model.V) {
				for _, v := range vs {
					switch x := v.(type) {
					case nil:
						out = append(out, nil)
					case string:
						out = append(out, model.S(x))
					case int:
						out = append(out, model.I(int64(x)))
					case *model.V:
						out = append(out, x)
					}
				}
				return out
			}
			ips := vals(nil, "10.0.0.1", "fe80::1", " 10.0.0.1", "10.0.0.1:80", "010.0.0.1", "localhost", "", 7, model.N(), model.A(model.S("10.0.0.1"), model.S("10.0.0.2")), model.A())
			trs := vals(nil, "icmp", "ICMP", "ipv6-icmp", "icmpv6", "igmp", "gre", "TCP", "tcp ", "6", "ospf", "pim", "sctp", "", 6, model.N(), model.A(model.S("tcp")))
			nums := vals(nil, 1, 58, 2, 47, 0, 255, 256, -1, "6", model.N())
			types := [][2]*model.V{{nil, nil}, {model.I(8), model.I(0)}, {model.I(0), model.I(0)}, {model.I(8), nil}, {model.S("8"), model.S("0")}, {model.U(128), model.U(0)}, {model.I(300), model.I(-1)}}
			ports := [][2]*model.V{{nil, nil}, {model.I(1), model.I(2)}, {model.S("1"), model.S("2")}, {model.I(-1), model.I(65536)}, {model.F(1), model.N()}}
			it, ic := "icmp.type", "icmp.code"
			for _, src := range ips {
				for _, dst := range []*model.V{ips[1], ips[2], src} {
					for _, tr := range trs {
						for _, num := range nums {
							for k := range types {
								for _, pp := range ports {
									if k > 1 && pp[0] != nil && num != nil {
										continue
									}
									m := model.NewTree()
									for key, v := range map[string]*model.V{l.sip: src, l.dip: dst, l.tr: tr, l.iana: num, it: types[k][0], ic: types[k][1], l.sport: pp[0], l.dport: pp[1], "keep": model.A(model.I(1))} {
										if v != nil {
											put(m, key, v.Clone())
										}
									}
									tree := m.Root
									t.At(func() string { return fmt.Sprintf("community_id %v on %s", l.opts, tree.Canon()) })
									r := p.Run(t, func() *event.Event { return model.Build(tree) })
									t.Eval(1)
									t.Outcome(tree.Canon())
									if model.MatchEvent(tree, r.After) {
										continue
									}
									if r.Err != nil {
										t.Fail("error %v, and the event is now %s", r.Err, model.Snapshot(r.After).Canon())
									}
									v := r.After.Get(l.target)
									if v == nil || v.Type != event.StringType || !strings.HasPrefix(v.String, "1:") {
										t.Fail("the event is now %s", model.Snapshot(r.After).Canon())
									}
									w := &model.Tree{Root: tree.Clone()}
									put(w, l.target, model.S(v.String))
									pr.Same(t, r.After, w.Root, "afterwards")
								}
							}
						}
					}
				}
			}
		}) {
			return
		}
		// Flows that lack parts or have unusable ones: nothing is stored.
		if !yield(fmt.Sprintf("unusable flows, layout %d", li), func(t *mc.T) {
			p := pr.New(t, "community_id", l.opts)
			keys := []string{l.sip, l.dip, l.tr}
			bad := []*model.V{nil, model.N(), model.S(""), model.S("x"), model.B(true), model.A(), model.O(nil), model.F(0.5), model.T(1)}
			f := flow{"10.0.0.1", "10.0.0.2", 1, 2, 6, "tcp", false}
			for mask := 1; mask < 1<<uint(len(keys)); mask++ {
				for _, b := range bad {
					m := &model.Tree{Root: l.tree(f, true)}
					for k := range keys {
						if mask>>uint(k)&1 == 0 {
							continue
						}
						if b == nil {
							m.Delete(model.Path(keys[k]))
						} else {
							put(m, keys[k], b.Clone())
						}
					}
					tree := m.Root
					t.At(func() string { return fmt.Sprintf("community_id %v on %s", l.opts, tree.Canon()) })
					r := p.Run(t, func() *event.Event { return model.Build(tree) })
					pr.Same(t, r.After, tree, "afterwards")
					t.Eval(1)
					t.Outcome(tree.Canon())
				}
			}
		}) {
			return
		}
	}
}

func complete(t *mc.T, p *pr.Proc, l layout, f flow, extra bool) {
	tree := l.tree(f, extra)
	t.At(func() string { return fmt.Sprintf("community_id %v on %s", l.opts, tree.Canon()) })
	t.Eval(1)
	want := &model.Tree{Root: tree.Clone()}
	id := communityID(l.seed, net.ParseIP(f.src), net.ParseIP(f.dst), f.proto, f.sport, f.dport)
	put(want, l.target, model.S(id))
	r := p.Run(t, func() *event.Event { return model.Build(tree) })
	t.Outcome(id + l.target)
	t.Sample(func() string { return tree.Canon() + " has " + id })
	if r.Err == nil && model.MatchEvent(tree, r.After) {
		if !t.KnownFinding("not-implemented") {
			t.Fail("nothing was stored, want %s", id)
		}
		return
	}
	if r.Err != nil {
		t.Fail("failed: %v, want %s", r.Err, id)
	}
	pr.Same(t, r.After, want.Root, "afterwards")
}

func main() {
	if got := communityID(0, net.ParseIP("128.232.110.120"), net.ParseIP("66.35.250.204"), 6, 34855, 80); got != "1:LQU9qZlK+B5F3KDmev6m5PMibrg=" {
		panic("the reference is wrong: " + got)
	}
	mc.Main(&mc.Check{
		ID: "C26", Level: "exploration",
		Rule:  "a case is a flow, the option layout it is stored under and whether other fields exist; the processor's outcome is compared with the Community ID specification; outcomes differ in the id or its place",
		Units: units,
		Bounds: func(tier string) map[string]interface{} {
			if tier == "thorough" {
				return map[string]interface{}{"addresses": "8 IPv4, 5 IPv6, all pairs", "ports": "9, all pairs", "protocols": "tcp, udp, sctp by name and number", "layouts": 7}
			}
			return map[string]interface{}{"addresses": "4 IPv4, 2 IPv6, all pairs", "ports": "4, all pairs", "protocols": "tcp, udp, sctp by name and number", "layouts": 7}
		},
		Assumptions: []string{"addresses, ports and protocol are given as ECS has them: text, integers, lower-case name or IANA number; ICMP is not covered"},
	})
}
