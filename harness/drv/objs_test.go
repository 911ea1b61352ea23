package drv

import (
	"encoding/json"
	"fmt"

	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
)

type typeInfo struct {
	gvr        store.GroupVersionResource
	kind       string
	namespaced bool
}

var typeTable = map[string]typeInfo{
	"pods":        {store.GroupVersionResource{Group: "", Version: "v1", Resource: "pods"}, "Pod", true},
	"services":    {store.GroupVersionResource{Group: "", Version: "v1", Resource: "services"}, "Service", true},
	"nodes":       {store.GroupVersionResource{Group: "", Version: "v1", Resource: "nodes"}, "Node", false},
	"deployments": {store.GroupVersionResource{Group: "apps", Version: "v1", Resource: "deployments"}, "Deployment", true},
	"widgets":     {store.GroupVersionResource{Group: "example.com", Version: "v1alpha1", Resource: "widgets"}, "Widget", true},
}

func (ti typeInfo) apiVersion() string {
	if ti.gvr.Group == "" {
		return ti.gvr.Version
	}
	return ti.gvr.Group + "/" + ti.gvr.Version
}

// objStyle decides what versions of an object have in common (see verObj).
var objStyle int

const objStyles = 6

// restyle gives the object the traits of the style; none of them says which version is current.
func restyle(om *metav1.ObjectMeta, ver int) {
	id := om.Namespace + "/" + om.Name
	switch objStyle {
	case 1: // one life, status changes only
		om.UID, om.Generation = types.UID(id), 1
		om.CreationTimestamp = metav1.Unix(1600000000, 0)
	case 2: // versions of a restored or replaced cluster may count backwards
		om.ResourceVersion = fmt.Sprint(1000000 - ver)
		om.CreationTimestamp = metav1.Unix(int64(1600000000-ver), 0)
	case 3: // the specification changes now and then
		om.UID, om.Generation = types.UID(id), int64(ver/3+1)
	case 4:
		om.ResourceVersion, om.UID = "7", ""
	case 5: // being deleted, and back as another object
		if ver%2 == 1 {
			om.Finalizers = []string{"x/y"}
			t := metav1.Unix(1700000000, 0)
			om.DeletionTimestamp = &t
		}
		om.Generation = int64(100 - ver)
	}
}

// verObj builds an object of the type whose every part carries the version.
func verObj(typ, ns, name string, ver int, lab string) interface{} {
	ti := typeTable[typ]
	om := metav1.ObjectMeta{
		Namespace: ns, Name: name, ResourceVersion: fmt.Sprint(ver),
		UID:    types.UID(fmt.Sprintf("uid-%d", ver)),
		Labels: map[string]string{"lab": lab, "ver": fmt.Sprint(ver)},
	}
	if lab == "" {
		delete(om.Labels, "lab")
	}
	restyle(&om, ver)
	tm := metav1.TypeMeta{Kind: ti.kind, APIVersion: ti.apiVersion()}
	switch typ {
	case "pods":
		return &corev1.Pod{TypeMeta: tm, ObjectMeta: om, Spec: corev1.PodSpec{NodeName: fmt.Sprintf("node-%d", ver)}}
	case "nodes":
		return &corev1.Node{TypeMeta: tm, ObjectMeta: om, Spec: corev1.NodeSpec{ProviderID: fmt.Sprintf("node-%d", ver)}}
	case "services":
		return &corev1.Service{TypeMeta: tm, ObjectMeta: om, Spec: corev1.ServiceSpec{ClusterIP: fmt.Sprintf("node-%d", ver)}}
	case "deployments":
		d := &appsv1.Deployment{TypeMeta: tm, ObjectMeta: om}
		d.Spec.Template.Spec.NodeName = fmt.Sprintf("node-%d", ver)
		return d
	default:
		return &watcher.ObjType{TypeMeta: tm, ObjectMeta: om, Data: map[string]interface{}{"spec": map[string]interface{}{"on": fmt.Sprintf("node-%d", ver)}}}
	}
}

// versionOf reads the version back; -1 when the parts of the object disagree,
// -2 when the owning cluster annotation is not the expected one.
func versionOf(o interface{}, cluster string) (ver int, lab, ns, name string) {
	mo, ok := o.(metav1.Object)
	if !ok {
		return -3, "", "", ""
	}
	fmt.Sscan(mo.GetLabels()["ver"], &ver)
	lab = mo.GetLabels()["lab"]
	on := ""
	switch x := o.(type) {
	case *corev1.Pod:
		on = x.Spec.NodeName
	case *corev1.Node:
		on = x.Spec.ProviderID
	case *corev1.Service:
		on = x.Spec.ClusterIP
	case *appsv1.Deployment:
		on = x.Spec.Template.Spec.NodeName
	case *watcher.ObjType:
		if sp, ok := x.Data["spec"].(map[string]interface{}); ok {
			on, _ = sp["on"].(string)
		}
	}
	want := metav1.ObjectMeta{Namespace: mo.GetNamespace(), Name: mo.GetName(), ResourceVersion: fmt.Sprint(ver), UID: types.UID(fmt.Sprintf("uid-%d", ver))}
	restyle(&want, ver)
	if mo.GetUID() != want.UID || mo.GetResourceVersion() != want.ResourceVersion || mo.GetGeneration() != want.Generation || (mo.GetDeletionTimestamp() == nil) != (want.DeletionTimestamp == nil) || on != fmt.Sprintf("node-%d", ver) {
		ver = -1
	}
	if cluster != "" && mo.GetAnnotations()[constants.DSMClusterAnno] != cluster {
		ver = -2
	}
	return ver, lab, mo.GetNamespace(), mo.GetName()
}

func clusterOf(o interface{}) string {
	if mo, ok := o.(metav1.Object); ok {
		return mo.GetAnnotations()[constants.DSMClusterAnno]
	}
	return ""
}

var stdIndex = map[string]string{
	"namespace": "{.metadata.namespace}",
	"name":      "{.metadata.name}",
	"lab":       "{.metadata.labels.lab}",
}

func proxiesFor(typs []string, index map[string]string) ([]common.Proxy, map[store.GroupVersionResource]map[string]string) {
	var ps []common.Proxy
	ic := map[store.GroupVersionResource]map[string]string{}
	for _, t := range typs {
		ti := typeTable[t]
		ps = append(ps, common.Proxy{Group: ti.gvr.Group, Version: ti.gvr.Version, Resource: ti.gvr.Resource, ListKind: ti.kind + "List", Index: index})
		ic[ti.gvr] = index
	}
	return ps, ic
}

func toJSON(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}
