package mc

import (
	"bytes"
	"fmt"
	"io"
	"sync"

	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
)

// demuxing scenario: packets by label, channels by set of labels.
type demuxCase struct {
	labels []int
	sets   []int
	skip   int // set, -1 none
	take   int // set, -1 none
	tail   int // 0 clean end, 1 cut inside a packet, 2 source error at a packet boundary, 3 inside
}

var demuxPids = []int{0x30, 0x31, 0x32}

// demuxPacket has contents that differ in every respect from packet to packet.
func demuxPacket(i, label int) []byte {
	t := tsPacket{pid: demuxPids[label], start: i%2 == 0, cc: i / 2, marks: i * 5}
	switch i % 4 {
	case 0:
		t.afc, t.payload = 1, pattern(100+i, 184)
	case 1:
		t.afc, t.af, t.afLen = 2, []byte{0x10, byte(i), 2, 3, 4, 5, 6}, 183
	case 2:
		t.afc, t.afLen, t.af, t.payload = 3, 83, []byte{0x05, byte(i), 4, 0x80, 0x12, byte(i), 0}, pattern(100+i, 100)
	default:
		t.afc, t.payload = 1, bytes.Repeat([]byte{0x47}, 184)
	}
	return t.bytes()
}

func (c demuxCase) stream() ([]byte, error, error) {
	var s []byte
	for i, l := range c.labels {
		s = append(s, demuxPacket(i, l)...)
	}
	end, exp := error(io.EOF), error(io.EOF)
	switch c.tail {
	case 1:
		s = append(s, demuxPacket(0, 0)[:77]...)
		exp = io.ErrUnexpectedEOF
	case 2:
		end, exp = errSource, errSource
	case 3:
		s = append(s, demuxPacket(0, 0)[:20]...)
		end, exp = errSource, errSource
	}
	return s, end, exp
}

// expect returns, per channel, the indices of the packets to be delivered.
func (c demuxCase) expect(exp error) ([][]int, error) {
	out := make([][]int, len(c.sets))
	skipping := true
	for i, l := range c.labels {
		if skipping {
			if c.skip >= 0 && c.skip>>uint(l)&1 == 0 {
				continue
			}
			skipping = false
		} else if c.take >= 0 && c.take>>uint(l)&1 == 0 {
			return out, nil
		}
		for k, s := range c.sets {
			if s>>uint(l)&1 == 1 {
				out[k] = append(out[k], i)
			}
		}
	}
	return out, exp
}

func labelSet(set int) ts.PacketTester {
	return func(p *ts.Packet) bool { return set>>uint(p.PID-0x30)&1 == 1 }
}

// runDemux explores one scenario under the controller.
func runDemux(x *X, c demuxCase, dev, hold bool) {
	stream, end, srcErr := c.stream()
	want, wantErr := c.expect(srcErr)
	var stops []int
	for at := 0; at <= len(stream); at += 188 {
		stops = append(stops, at)
	}
	// only the two ends matter: waiting from the start, or when all else is done
	waiter := Pick(x, []string{"!wait for completion", "~wait for completion"})
	refs := make([]refPacket, len(c.labels))
	for i, l := range c.labels {
		refs[i], _ = refTS(demuxPacket(i, l))
	}
	inBubble(x, func(b *bubble) {
		d := ts.NewDemuxer(&stepSource{b: b, name: "source", src: &source{data: stream, end: end}, stops: stops})
		var chans []ts.PacketChannel
		for _, s := range c.sets {
			chans = append(chans, d.Where(labelSet(s)))
		}
		if c.skip >= 0 {
			d.SkipUntil(labelSet(c.skip))
		}
		if c.take >= 0 {
			d.TakeWhile(labelSet(c.take))
		}
		type held struct {
			p *ts.Packet
			i int
			k int
		}
		var mu sync.Mutex
		var holding []held
		received := make([]int, len(chans))
		closedN := 0
		done := d.Go()
		finished := false
		for k := range chans {
			go func() {
				for n := 0; ; n++ {
					b.wait(fmt.Sprintf("receive %d", k))
					p, ok := <-chans[k]
					if !ok {
						if n != len(want[k]) {
							b.failf("channel %d is closed after %d packets, expected packets %v", k, n, want[k])
						}
						mu.Lock()
						closedN++
						mu.Unlock()
						return
					}
					if n >= len(want[k]) {
						b.failf("channel %d delivers %d packets, expected %v", k, n+1, want[k])
						return
					}
					if p == nil {
						b.failf("channel %d delivers a nil packet", k)
						return
					}
					if df := diffTS(p, &refs[want[k][n]]); df != "" {
						b.failf("delivery %d on channel %d should be packet %d: %s", n, k, want[k][n], df)
						return
					}
					mu.Lock()
					received[k] = n + 1
					holding = append(holding, held{p, want[k][n], k})
					mu.Unlock()
				}
			}()
		}
		go func() {
			b.wait(waiter)
			_, ok := <-done
			if !ok {
				b.failf("completion is signalled by closing only, no value is delivered")
				return
			}
			if err := d.Err(); err != wantErr {
				b.failf("completion is signalled with error %v, expected %v", errName(err), errName(wantErr))
			}
			for k := range chans {
				if len(chans[k]) > 0 {
					continue // sent, and waiting in a buffer
				}
				select {
				case _, ok := <-chans[k]:
					if ok {
						b.failf("completion is signalled before the last packet of channel %d is delivered", k)
					}
				default:
					b.failf("completion is signalled, but channel %d is not closed", k)
				}
			}
			mu.Lock()
			finished = true
			mu.Unlock()
		}()
		b.run(dev, func() {
			mu.Lock()
			defer mu.Unlock()
			h := HashInts(uint64(closedN), b2u(finished))
			for _, n := range received {
				h = HashInts(h, uint64(n))
			}
			for _, l := range c.labels {
				h = HashInts(h, uint64(l))
			}
			for _, s := range c.sets {
				h = HashInts(h, uint64(s))
			}
			x.Visit(HashInts(h, uint64(c.skip+1), uint64(c.take+1), uint64(c.tail)))
			for _, g := range holding {
				if df := diffTS(g.p, &refs[g.i]); df != "" {
					x.Note("schedule", "%v", b.trace)
					x.Fail("packet %d, received earlier on channel %d, has changed: %s", g.i, g.k, df)
				}
			}
			if hold {
				for i, g := range holding {
					for _, o := range holding[:i] {
						if o.i != g.i && (o.p == g.p || len(o.p.Payload) > 0 && len(g.p.Payload) > 0 && &o.p.Payload[0] == &g.p.Payload[0]) {
							x.Fail("packets %d and %d share their storage", o.i, g.i)
						}
					}
				}
			}
		})
		if !finished || closedN != len(chans) {
			x.Fail("deadlock: nothing can go on, %d of %d channels closed, completion %v; schedule %v", closedN, len(chans), finished, b.trace)
		}
		select {
		case _, ok := <-done:
			if ok {
				x.Fail("completion is signalled twice")
			}
		default:
		}
	})
}

func init() {
	conc := []string{
		"goroutines of the library run for real inside a controlled bubble (testing/synctest); scheduling points are source reads, channel receives and the completion wait; steps between two points run to quiescence",
		"memory accesses between scheduling points are covered by a separate free-running pass under the race detector",
	}
	register(&Check{
		ID: "T08", Level: "model_checking", Assume: conc,
		Rule:   "for every packet sequence and every channel/condition configuration of the scenario space every order of source reads, receives and the completion wait is executed on the real demultiplexer; deliveries, closings, completion and error are compared with the model; states are (configuration, deliveries per channel, closings, completion)",
		Spaces: t08spaces,
		Race:   func(th bool) error { return raceDemux(th) },
	})
	register(&Check{
		ID: "T09", Level: "model_checking", Assume: conc,
		Rule:   "as T08, with every received packet kept and compared with the reference, in full, after every step of every schedule; kept packets must not share storage; states are (configuration, packets held)",
		Spaces: t09spaces,
		Race:   func(th bool) error { return raceDemux(th) },
	})
	register(&Check{
		ID: "T10", Level: "model_checking", Assume: conc,
		Rule:   "every sequence of packet shapes up to the depth is sent through the real channel transforms under every order of sends and receives; outputs, their order, closing and the stability of outputs already received are compared with the unit model; states are (shapes sent, outputs received)",
		Spaces: t10spaces,
		Race:   raceChannels,
	})
}

func enumLabels(x *X, lo, hi, n int) []int {
	k := lo + x.Choose(hi-lo+1)
	var l []int
	for i := 0; i < k; i++ {
		l = append(l, x.Choose(n))
	}
	return l
}

func t08spaces(thorough bool) []*Space {
	n1, n2, nd := 6, 4, 6
	if thorough {
		n1, n2, nd = 8, 6, 9
	}
	return []*Space{
		{Name: "one channel, all interleavings", Body: func(x *X) {
			c := demuxCase{labels: enumLabels(x, 0, n1, 2), skip: -1, take: -1, sets: []int{1 + x.Choose(3)}}
			c.tail = x.Choose(4)
			runDemux(x, c, false, false)
		}},
		{Name: "no channel", Body: func(x *X) {
			c := demuxCase{labels: enumLabels(x, 0, 3, 2), skip: -1, take: -1}
			c.tail = x.Choose(4)
			runDemux(x, c, false, false)
		}},
		{Name: "two channels, all interleavings", Body: func(x *X) {
			c := demuxCase{labels: enumLabels(x, 1, n2, 2), skip: -1, take: -1}
			c.sets = Pick(x, [][]int{{1, 2}, {3, 3}, {1, 3}, {3, 2}, {1, 1}, {0, 3}})
			runDemux(x, c, false, false)
		}},
		{Name: "three channels, overlapping", Bound: 4, Body: func(x *X) {
			c := demuxCase{labels: enumLabels(x, 1, 2, 3), skip: -1, take: -1}
			c.sets = Pick(x, [][]int{{1, 2, 4}, {7, 7, 7}, {7, 1, 3}})
			runDemux(x, c, !thorough, false)
		}},
		{Name: "skip and take conditions", Body: func(x *X) {
			c := demuxCase{labels: enumLabels(x, 1, n2, 2), skip: x.Choose(4), take: x.Choose(4)}
			c.sets = Pick(x, [][]int{{3}, {1, 2}})
			runDemux(x, c, false, false)
		}},
		{Name: "longer histories, bounded deviations", Bound: 2 + b2i(thorough), Body: func(x *X) {
			c := demuxCase{labels: enumLabels(x, nd, nd, 2), skip: -1, take: -1}
			c.sets = Pick(x, [][]int{{1, 2}, {3, 1, 2}})
			c.tail = Pick(x, []int{0, 1})
			runDemux(x, c, true, false)
		}},
	}
}

func t09spaces(thorough bool) []*Space {
	n1, nd := 6, 9
	if thorough {
		n1, nd = 8, 12
	}
	return []*Space{
		{Name: "one channel holding everything", Body: func(x *X) {
			c := demuxCase{labels: enumLabels(x, 2, n1, 2), skip: -1, take: -1, sets: []int{1 + x.Choose(3)}}
			runDemux(x, c, false, true)
		}},
		{Name: "two channels holding everything", Body: func(x *X) {
			c := demuxCase{labels: enumLabels(x, 2, 3+b2i(thorough), 2), skip: -1, take: -1}
			c.sets = Pick(x, [][]int{{1, 2}, {3, 3}, {1, 3}})
			runDemux(x, c, false, true)
		}},
		{Name: "hundreds of packets held", Bound: b2i(thorough), Body: func(x *X) {
			c := demuxCase{skip: -1, take: -1, sets: [][]int{{3}, {1, 2}}[x.Choose(2)]}
			for i := 0; i < 300; i++ {
				c.labels = append(c.labels, i*i/3%2)
			}
			runDemux(x, c, true, true)
		}},
		{Name: "long runs, bounded deviations", Bound: 2, Body: func(x *X) {
			c := demuxCase{skip: -1, take: -1}
			for i := 0; i < nd; i++ {
				c.labels = append(c.labels, i%2)
			}
			c.sets = Pick(x, [][]int{{3}, {1, 2}, {3, 1}})
			c.tail = x.Choose(2)
			runDemux(x, c, true, true)
		}},
	}
}

// ---------------------------------------------------------------- channel transforms

type chShape struct {
	start bool
	n     int
}

var chShapes = []chShape{{true, 5}, {true, 0}, {false, 3}, {false, 0}, {true, 184}}

func chPayload(i, n int) []byte { return pattern(300+i, n) }

// runTransform drives input -> transform -> output in a bubble. in sends one packet and
// close ends the input.
func runTransform(x *X, b *bubble, n int, send func(i int), end func(), out <-chan []byte, want [][]byte, dev bool, key uint64) {
	go func() {
		for i := 0; i < n; i++ {
			b.wait("send")
			send(i)
		}
		b.wait("send end")
		end()
	}()
	var mu sync.Mutex
	var got [][]byte
	closed := false
	go func() {
		for k := 0; ; k++ {
			b.wait("receive")
			u, ok := <-out
			if !ok {
				mu.Lock()
				closed = true
				mu.Unlock()
				if k != len(want) {
					b.failf("the output is closed after %d items, expected %d", k, len(want))
				}
				return
			}
			if k >= len(want) {
				b.failf("output %d is delivered, expected only %d", k+1, len(want))
				return
			}
			if d := diffBytes(u, want[k]); d != "" {
				b.failf("output %d: %s", k, d)
				return
			}
			mu.Lock()
			got = append(got, u)
			mu.Unlock()
		}
	}()
	b.run(dev, func() {
		mu.Lock()
		defer mu.Unlock()
		for k, u := range got {
			if d := diffBytes(u, want[k]); d != "" {
				x.Note("schedule", "%v", b.trace)
				x.Fail("output %d, received earlier, has changed: %s", k, d)
			}
		}
		x.Visit(HashInts(key, uint64(len(got)), b2u(closed)))
	})
	if !closed {
		x.Fail("deadlock: the output is not closed after %d items; schedule %v", len(got), b.trace)
	}
}

func t10spaces(thorough bool) []*Space {
	depth := 4 + b2i(thorough)
	unit := func(x *X, seq []int, dev bool) {
		var want [][]byte
		key := uint64(3)
		for i, k := range seq {
			s := chShapes[k]
			if s.start {
				want = append(want, []byte{})
			}
			if len(want) > 0 {
				want[len(want)-1] = append(want[len(want)-1], chPayload(i, s.n)...)
			}
			key = HashInts(key, uint64(k))
		}
		inBubble(x, func(b *bubble) {
			in := make(chan *ts.Packet)
			runTransform(x, b, len(seq), func(i int) {
				in <- &ts.Packet{PayloadUnitStartIndicator: chShapes[seq[i]].start, Payload: chPayload(i, chShapes[seq[i]].n)}
			}, func() { close(in) }, ts.PacketChannel(in).PayloadUnit(), want, dev, key)
		})
	}
	only := func(x *X, seq []int, kind int, dev bool) {
		var want [][]byte
		key := uint64(kind)
		for i, k := range seq {
			want = append(want, chPayload(i, chShapes[k].n))
			key = HashInts(key, uint64(k))
		}
		inBubble(x, func(b *bubble) {
			if kind == 0 {
				in := make(chan *ts.Packet)
				runTransform(x, b, len(seq), func(i int) {
					in <- &ts.Packet{PayloadUnitStartIndicator: chShapes[seq[i]].start, Payload: chPayload(i, chShapes[seq[i]].n)}
				}, func() { close(in) }, ts.PacketChannel(in).PayloadOnly(), want, dev, key)
			} else {
				in := make(chan *pes.Packet)
				runTransform(x, b, len(seq), func(i int) {
					in <- &pes.Packet{StreamID: 0xe0, Payload: chPayload(i, chShapes[seq[i]].n)}
				}, func() { close(in) }, pes.PacketChannel(in).PayloadOnly(), want, dev, key)
			}
		})
	}
	return []*Space{
		{Name: "units", Body: func(x *X) { unit(x, enumLabels(x, 0, depth, len(chShapes)), false) }},
		{Name: "transport payloads", Body: func(x *X) { only(x, enumLabels(x, 0, depth, 3), 0, false) }},
		{Name: "elementary payloads", Body: func(x *X) { only(x, enumLabels(x, 0, depth, 3), 1, false) }},
		{Name: "long units, bounded deviations", Bound: 2, Body: func(x *X) {
			unit(x, enumLabels(x, 6+b2i(thorough), 6+b2i(thorough), 4), true)
		}},
	}
}

// ---------------------------------------------------------------- free-running bodies

// raceDemux runs demultiplexers without control while consumers keep and re-read all
// packets; the race detector watches.
func raceDemux(thorough bool) error {
	rounds := 150
	if thorough {
		rounds = 1500
	}
	for r := 0; r < rounds; r++ {
		c := demuxCase{skip: -1, take: -1, sets: [][]int{{3}, {1, 2}, {3, 1, 2}}[r%3]}
		for i := 0; i < 12; i++ {
			c.labels = append(c.labels, (i*7+r)%2)
		}
		stream, _, _ := c.stream()
		refs := make([]refPacket, len(c.labels))
		for i, l := range c.labels {
			refs[i], _ = refTS(demuxPacket(i, l))
		}
		want, _ := c.expect(io.EOF)
		d := ts.NewDemuxer(&source{data: stream})
		var chans []ts.PacketChannel
		for _, s := range c.sets {
			chans = append(chans, d.Where(labelSet(s)))
		}
		done := d.Go()
		var wg sync.WaitGroup
		errs := make([]error, len(chans))
		for k := range chans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var held []*ts.Packet
				for p := range chans[k] {
					held = append(held, p)
					for n, h := range held {
						if n >= len(want[k]) {
							errs[k] = fmt.Errorf("channel %d delivers more than %v", k, want[k])
							continue
						}
						if df := diffTS(h, &refs[want[k][n]]); df != "" {
							errs[k] = fmt.Errorf("delivery %d on channel %d: %s", n, k, df)
						}
					}
				}
			}()
		}
		<-done
		if d.Err() != io.EOF {
			return fmt.Errorf("error %v at completion", d.Err())
		}
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
	}
	return nil
}

func raceChannels(thorough bool) error {
	rounds := 300
	if thorough {
		rounds = 3000
	}
	for r := 0; r < rounds; r++ {
		in := make(chan *ts.Packet)
		out := ts.PacketChannel(in).PayloadUnit()
		in2 := make(chan *ts.Packet)
		out2 := ts.PacketChannel(in2).PayloadOnly()
		var want [][]byte
		go func() {
			defer close(in)
			defer close(in2)
			for i := 0; i < 20; i++ {
				p := &ts.Packet{PayloadUnitStartIndicator: (i*5+r)%3 == 0, Payload: chPayload(i, i%7)}
				in <- p
				in2 <- p
			}
		}()
		for i := 0; i < 20; i++ {
			if (i*5+r)%3 == 0 {
				want = append(want, []byte{})
			}
			if len(want) > 0 {
				want[len(want)-1] = append(want[len(want)-1], chPayload(i, i%7)...)
			}
		}
		var wg sync.WaitGroup
		var err1, err2 error
		wg.Add(2)
		go func() {
			defer wg.Done()
			var held [][]byte
			for u := range out {
				held = append(held, u)
				for k, h := range held {
					if k >= len(want) || !bytes.Equal(h, want[k]) {
						err1 = fmt.Errorf("unit %d is wrong", k)
					}
				}
			}
		}()
		go func() {
			defer wg.Done()
			k := 0
			for u := range out2 {
				if !bytes.Equal(u, chPayload(k, k%7)) {
					err2 = fmt.Errorf("payload %d is wrong", k)
				}
				k++
			}
		}()
		wg.Wait()
		if err1 != nil {
			return err1
		}
		if err2 != nil {
			return err2
		}
	}
	return nil
}
