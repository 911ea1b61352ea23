package drv

import (
	"encoding/json"
	"strconv"
	"testing"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/watcher"
)

func init() { modes["deploy"] = driveDeploy }

// strMap is a function of strings; TLC prints the empty one as [].
type strMap map[string]string

func (m *strMap) UnmarshalJSON(b []byte) error {
	*m = strMap{}
	if len(b) > 0 && b[0] == '[' {
		return nil
	}
	x := map[string]string{}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*m = x
	return nil
}

type deployStep struct {
	Op      string      `json:"op"`
	K       [3]string   `json:"k"`
	Labels  strMap      `json:"labels"`
	Owners  [][3]string `json:"owners"`
	Generic bool        `json:"generic"`
	C       string      `json:"c"`
	NS      string      `json:"ns"`
	D       string      `json:"d"`
}

func driveDeploy(t *testing.T, in []json.RawMessage, out *Out) {
	for _, raw := range in {
		var sc struct {
			Deflt string       `json:"deflt"`
			Steps []deployStep `json:"steps"`
		}
		must(raw, &sc)
		idx := map[string][]string{"name": {"name"}, "namespace": {"ns"}}
		w := newWorld(sc.Deflt, "", map[string]map[string][]string{"pods": idx, "services": idx}, nil)
		out.Emit(M{"ev": "reset", "deflt": sc.Deflt})
		pods, svcs := typeTable["pods"].gvr, typeTable["services"].gvr
		have := map[string]bool{}
		for i, s := range sc.Steps {
			om := metav1.ObjectMeta{Namespace: s.K[1], Name: s.K[2], UID: "u", ResourceVersion: strconv.Itoa(i)}
			// what is neither asked for nor told
			if i%4 == 1 {
				om.DeletionTimestamp = &metav1.Time{Time: time.Unix(1600000000, 0)}
				om.Finalizers = []string{"x/y"}
			}
			om.GenerateName = []string{"", "g-", "web-1-"}[i%3]
			id := s.Op[3:] + toJSON(s.K)
			switch s.Op {
			case "putpod":
				om.Labels = s.Labels
				for j, o := range s.Owners {
					ctl := j == len(s.Owners)-1
					om.OwnerReferences = append(om.OwnerReferences, metav1.OwnerReference{APIVersion: []string{"apps/v1", "apps/v1", "extensions/v1beta1"}[i%3], Kind: o[0], Name: o[1], UID: "x", Controller: &ctl})
				}
				p := &corev1.Pod{TypeMeta: metav1.TypeMeta{Kind: "Pod", APIVersion: "v1"}, ObjectMeta: om}
				p.Status.Phase = []corev1.PodPhase{"", corev1.PodRunning, corev1.PodFailed, corev1.PodSucceeded, corev1.PodPending}[i%5]
				p.Spec.HostNetwork = i%7 == 0
				var o interface{} = p
				if i%6 == 5 {
					g := &watcher.ObjType{}
					b, _ := json.Marshal(o)
					must(b, g)
					o = g
				}
				if have[id] {
					_ = w.st.OnResourceModified(pods, s.K[0], o)
				} else {
					_ = w.st.OnResourceAdded(pods, s.K[0], o)
				}
				have[id] = true
				out.Emit(M{"ev": "putpod", "k": s.K, "labels": s.Labels, "owners": s.Owners})
			case "delpod":
				delete(have, "pod"+toJSON(s.K))
				_ = w.st.OnResourceDeleted(pods, s.K[0], &corev1.Pod{ObjectMeta: om})
				out.Emit(M{"ev": "delpod", "k": s.K})
			case "putsvc":
				var o interface{} = &corev1.Service{TypeMeta: metav1.TypeMeta{Kind: "Service", APIVersion: "v1"}, ObjectMeta: om, Spec: corev1.ServiceSpec{Selector: s.Labels,
					Type: []corev1.ServiceType{"", corev1.ServiceTypeClusterIP, corev1.ServiceTypeNodePort, corev1.ServiceTypeExternalName, corev1.ServiceTypeLoadBalancer}[i%5], ClusterIP: []string{"", "None", "10.0.0.1"}[i%3], PublishNotReadyAddresses: i%2 == 0}}
				if s.Generic {
					g := &watcher.ObjType{}
					b, _ := json.Marshal(o)
					must(b, g)
					o = g
				}
				if have[id] {
					_ = w.st.OnResourceModified(svcs, s.K[0], o)
				} else {
					_ = w.st.OnResourceAdded(svcs, s.K[0], o)
				}
				have[id] = true
				out.Emit(M{"ev": "putsvc", "k": s.K, "labels": s.Labels})
			case "delsvc":
				delete(have, "svc"+toJSON(s.K))
				_ = w.st.OnResourceDeleted(svcs, s.K[0], &corev1.Service{ObjectMeta: om})
				out.Emit(M{"ev": "delsvc", "k": s.K})
			case "ask":
				p := "/custom/v1/namespaces/"
				if s.C != "" {
					p = "/custom/v1/clusters/" + s.C + "/namespaces/"
				}
				st, _, b := call(w.handler, "GET", p+s.NS+"/deployments/"+s.D+"/services", "", "")
				var l []struct {
					metav1.ObjectMeta `json:"metadata"`
					Spec              struct {
						Selector strMap `json:"selector"`
					} `json:"spec"`
				}
				got := L{}
				err := json.Unmarshal(b, &l)
				for _, x := range l {
					if x.Spec.Selector == nil {
						x.Spec.Selector = strMap{}
					}
					got = append(got, L{x.Annotations[constants.DSMClusterAnno], x.Namespace, x.Name, x.Spec.Selector})
				}
				out.Emit(M{"ev": "ask", "c": s.C, "ns": s.NS, "d": s.D, "st": st, "array": err == nil && len(b) > 0 && b[0] == '[', "got": got})
			}
		}
	}
}
