package main

// Nodes and HTTP servers that are started and stopped, at addresses that some
// of them share; what is stored by way of each; and constructors.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"sort"
	"time"

	"trypo/core/api"
	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

func init() { drivers["life"] = lifeDriver }

type lifeSrv struct {
	name, addr string
	srv        *rpc.KMeansServer
}

type lifeWorld struct {
	r     *rand.Rand
	ip    string // of this scenario: nobody else takes its ports
	srvs  []*lifeSrv
	stops []func() // by handle; nil: an HTTP server
	steps []Step
	id    int
}

const lifePort = "20100"

func (w *lifeWorld) host(a string) Addr {
	return Addr{IP: w.ip + "." + a, Port: lifePort}
}

func (w *lifeWorld) hostStr(a string) string {
	h := w.host(a)
	return h.ToStr()
}

// lifeVec has the id in it. All vectors point in about the same direction.
func lifeVec(id int) []float64 { return []float64{float64(id), 1000} }

func lifeIDs(vecs [][]float64) []int {
	r := []int{}
	for _, v := range vecs {
		id := -1
		if len(v) == 2 && v[1] == 1000 {
			id = int(v[0])
		}
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

func (w *lifeWorld) put(s Step) { w.steps = append(w.steps, s) }

func netErr(err error) string {
	switch e := errStr(err); {
	case e == "none" || e == "ns":
		return e
	default:
		if _, ok := err.(interface{ Timeout() bool }); ok || e == "net" {
			return "net"
		}
		return e
	}
}

func dpVecs(dps []DataPoint) [][]float64 {
	r := [][]float64{}
	for _, d := range dps {
		r = append(r, d.Vec)
	}
	return r
}

// hstart waits until the server runs or gives up.
func (w *lifeWorld) hstart(a, back string, backs bool) bool {
	cfg := api.APIConfig{Addr: w.host(a), ReadTimeout: 30 * time.Second, WriteTimeout: 30 * time.Second}
	if backs {
		cfg.RPCAddrs = []Addr{w.host(back)}
	}
	listens := func() bool {
		c, err := net.Dial("tcp", w.hostStr(a))
		if err == nil {
			c.Close()
		}
		return err == nil
	}
	taken := listens()
	end := make(chan error, 1)
	go func() { end <- api.Start(cfg) }()
	if taken {
		// Whatever answers is not this server.
		select {
		case <-end:
			return false
		case <-time.After(3 * time.Second):
			return true
		}
	}
	for t := time.Now(); time.Since(t) < opTimeout; {
		select {
		case <-end:
			return false
		case <-time.After(3 * time.Millisecond):
		}
		if listens() {
			return true
		}
	}
	hung(w.id, "start of an HTTP server")
	return false
}

var lifeClient = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: opTimeout}

func (w *lifeWorld) post(a, path string, v interface{}) (int, []byte) {
	b, _ := json.Marshal(v)
	r, err := lifeClient.Post("http://"+w.hostStr(a)+path, "application/json", bytes.NewReader(b))
	if err != nil {
		return 0, nil
	}
	defer r.Body.Close()
	out, _ := io.ReadAll(r.Body)
	return r.StatusCode, out
}

func (w *lifeWorld) step(k, id int) {
	r := w.r
	addrs, https := []string{"1", "2", "3"}, []string{"8", "9"}
	a, h := addrs[r.Intn(3)], https[r.Intn(2)]
	n := w.srvs[r.Intn(len(w.srvs))]
	ns := []string{"a", "b", ""}[r.Intn(3)]
	var err error
	cli := rpc.KMeansClient(w.hostStr(a), ns, &err)
	switch {
	case k < 16:
		stop, err := rpc.StartListen(n.srv)
		if err == nil {
			w.stops = append(w.stops, stop)
		}
		w.put(Step{"op": "start", "srv": n.name, "addr": n.addr, "ok": err == nil})
	case k < 28:
		if len(w.stops) == 0 {
			return
		}
		// Often a recent one.
		i := r.Intn(len(w.stops))
		if r.Intn(3) > 0 {
			i = len(w.stops) - 1
		}
		if w.stops[i] == nil {
			return
		}
		w.stops[i]()
		w.put(Step{"op": "stop", "h": i + 1})
	case k < 48:
		ok := cli.AddDataPoint(DataPoint{Vec: lifeVec(id), Payload: []byte("x")})
		w.put(Step{"op": "put", "addr": a, "ns": ns, "id": id, "ok": ok, "err": netErr(err)})
	case k < 60:
		vecs := [][]float64{}
		cs, _ := cli.NearestCentroids([]float64{1, 1}, 1000, false)
		for _, c := range cs {
			vecs = append(vecs, dpVecs(c.DataPoints)...)
		}
		w.put(Step{"op": "get", "addr": a, "ns": ns, "out": lifeIDs(vecs), "err": netErr(err)})
	case k < 64:
		w.put(Step{"op": "take", "addr": a, "ns": ns, "out": lifeIDs(dpVecs(cli.DrainUnordered(1000))), "err": netErr(err)})
	case k < 70:
		w.put(Step{"op": "nss", "addr": a, "names": append([]string{}, cli.Namespaces()...), "err": netErr(err)})
	case k < 73:
		w.put(Step{"op": "tnss", "srv": n.name, "names": append([]string{}, n.srv.Table.Namespaces()...)})
	case k < 79:
		s := Step{"op": "tacc", "srv": n.name, "ns": ns, "n": 0}
		s["ok"] = n.srv.Table.Access(ns, func(cm *CM) { s["n"] = cm.LenDP() })
		w.put(s)
	case k < 80:
		n.srv.Table.Reset()
		w.put(Step{"op": "reset", "srv": n.name})
	case k < 82:
		var slot *rpc.CManagerSlot
		if r.Intn(2) == 0 {
			slot = &rpc.CManagerSlot{}
		}
		w.put(Step{"op": "slot", "srv": n.name, "ns": ns, "ok": n.srv.Table.AddSlot(ns, slot)})
	case k < 84:
		kn, kf := searchutils.KNNCos, searchutils.KFNCos
		if r.Intn(2) == 0 {
			kn = nil
		}
		if r.Intn(2) == 0 {
			kf = nil
		}
		s := Step{"op": "new", "knn": kn != nil, "kfn": kf != nil}
		if r.Intn(2) == 0 {
			_, s["ok"] = centroid.NewCentroid(centroid.NewCentroidArgs{InitVec: lifeVec(1), KNNSearchFunc: kn, KFNSearchFunc: kf})
		} else {
			_, s["ok"] = centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{InitVec: lifeVec(1), KNNSearchFunc: kn, KFNSearchFunc: kf})
		}
		w.put(s)
	case k < 88:
		// At an address of a node, too (which has to be in use, or it could not
		// be told apart from a node afterwards).
		s := Step{"op": "hstart", "addr": h, "back": a, "backs": r.Intn(4) > 0}
		s["ok"] = w.hstart(h, a, s["backs"].(bool))
		if s["ok"].(bool) {
			w.stops = append(w.stops, nil)
		}
		w.put(s)
	case k < 94:
		status, _ := w.post(h, "/api/dp/put", map[string]interface{}{"namespace": ns, "accurate": r.Intn(2) == 0,
			"dp": map[string]interface{}{"vec": lifeVec(id)}})
		w.put(Step{"op": "hput", "addr": h, "ns": ns, "id": id, "status": status})
	default:
		status, body := w.post(h, "/api/dp/query", map[string]interface{}{"namespace": ns, "accurate": r.Intn(2) == 0,
			"queryVec": lifeVec(1), "n": 1000})
		var dps []struct{ Vec []float64 }
		json.Unmarshal(body, &dps)
		vecs := [][]float64{}
		for _, d := range dps {
			vecs = append(vecs, d.Vec)
		}
		w.put(Step{"op": "hget", "addr": h, "ns": ns, "out": lifeIDs(vecs), "status": status})
	}
}

func lifeDriver(o Opts) {
	pid := os.Getpid()
	scenarios(o, func(id int) []Step {
		w := &lifeWorld{r: rand.New(rand.NewSource(o.Seed*7919 + int64(id))), id: id,
			ip: fmt.Sprintf("127.%d.%d", 1+pid%250, 1+(pid/250*97+id)%250)}
		factory := func(v []float64) *CM {
			cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
				InitVec: v, CentroidDPThreshold: 4, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos})
			return &cm
		}
		for i, a := range []string{"1", "1", "2", "3"} {
			w.srvs = append(w.srvs, &lifeSrv{name: fmt.Sprint("s", i+1), addr: a, srv: rpc.NewKMeansServer(w.hostStr(a), factory)})
		}
		for i := 0; i < o.Steps; i++ {
			k := w.r.Intn(100)
			if i < 3 {
				k = 0 // At first some have to run.
			}
			w.step(k, i+1)
		}
		for _, stop := range w.stops {
			if stop != nil {
				stop()
			}
		}
		return []Step{{"id": id, "seed": o.Seed, "steps": w.steps}}
	})
}
