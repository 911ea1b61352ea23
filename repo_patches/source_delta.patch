From 87f73fd79e2d809cdebd1f7455b77b7983e95bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 01/40] fix: reset the exported resource count when a cluster's
 objects are cleared

---
 store/memory/memory.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 84c3ab8..504712f 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -136,9 +136,11 @@ func (m *memoryStore) Clean(gvr store.GroupVersionResource, cluster string) erro
 	if !m.resourceMap.Get(gvr).Exists(clusterName(cluster)) {
 		return fmt.Errorf("cluster %s not exists", cluster)
 	}
-	for _, c := range m.resourceMap.Get(gvr).Get(clusterName(cluster)).Values() {
+	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
 		c.Clean()
-	}
+		prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns)).
+			Set(float64(c.Len()))
+	})
 	return nil
 }
 
-- 
2.43.0


From e080100dd2015ccc5a126f8a45b0d23c35e99e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 02/40] fix: order objects with equal sort keys by identity and
 refuse malformed sorts

---
 store/memory/memory.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 504712f..f0bffcb 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -199,7 +200,7 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 		if strings.Contains(s, " ") {
 			parts := strings.Split(s, " ")
 			if len(parts) > 2 {
-				return objs, nil
+				return objs, fmt.Errorf("error sort format `%s`", s)
 			}
 			if len(parts) == 2 {
 				switch parts[1] {
@@ -245,12 +246,12 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			if s.typ == constants.KeyTypeInt {
 				keyErr := fmt.Errorf("value of `%s` can not convert to number", s.key)
 				vi, err := strconv.ParseFloat(vis, 64)
-				if err != nil {
+				if err != nil || math.IsNaN(vi) {
 					sortErr = keyErr
 					break
 				}
 				vj, err := strconv.ParseFloat(vjs, 64)
-				if err != nil {
+				if err != nil || math.IsNaN(vj) {
 					sortErr = keyErr
 					break
 				}
@@ -268,7 +269,14 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			}
 			return r
 		}
-		return true
+		// objects that compare equal are ordered by their identity,
+		// so that every query sees the same order.
+		for _, key := range []string{"cluster", "namespace", "name"} {
+			if vi, vj := objs[i].Index[key], objs[j].Index[key]; vi != vj {
+				return vi < vj
+			}
+		}
+		return false
 	})
 	return objs, sortErr
 }
-- 
2.43.0


From 76bd6a0b5e93a52da1ca0361e7060729940cf1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 03/40] fix: page bounds, remaining count and totals for zero,
 negative and huge pages

---
 api/proxy.go           | 51 ++++++++++++++++--------------------------
 page/page.go           | 23 ++++++++++++++++++-
 store/memory/memory.go | 16 +------------
 3 files changed, 42 insertions(+), 48 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 2c7ce8b..32c5899 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -216,6 +216,14 @@ func Proxy(r *ReqContext) interface{} {
 	if resourceName != "" {
 		return ProxySingleResources(r, gvr, cluster, namespace, resourceName)
 	}
+	if paginate.Page < 0 || paginate.PageSize < 0 {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "query error",
+			Reason:  v1.StatusReason(fmt.Sprintf("page and page size must not be negative: %d, %d", paginate.Page, paginate.PageSize)),
+			Code:    400,
+		})
+	}
 	// default only get default cluster's resources,
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
@@ -265,21 +273,7 @@ func Proxy(r *ReqContext) interface{} {
 
 		// manually slice items
 		var l = int64(len(items))
-		var start, end int64
-		if paginate.PageSize == 0 || paginate.Page == 0 {
-			// all resources
-			start = 0
-			end = l
-		} else {
-			start = (paginate.Page - 1) * paginate.PageSize
-			end = start + paginate.PageSize
-			if start >= l {
-				start = l
-			}
-			if end >= l {
-				end = l
-			}
-		}
+		start, end := paginate.Range(l)
 		items = items[start:end]
 		total = l
 	} else {
@@ -304,23 +298,16 @@ func Proxy(r *ReqContext) interface{} {
 	} else {
 		apiVersion = gvr.Group + "/" + gvr.Version
 	}
-	var remainCount int64
-	if paginate.Page == 0 && paginate.PageSize == 0 {
-		// all item returned
-		remainCount = 0
-	} else {
-		// page starts with 1,
-		remainCount = total - (paginate.PageSize * paginate.Page)
-		if remainCount < 0 && len(items) == 0 && paginate.Page != 1 {
-			return errorProxy(r.Writer, v1.Status{
-				Status:  v1.StatusFailure,
-				Message: "out of page",
-				Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d", remainCount)),
-				Code:    400,
-			})
-		} else if remainCount < 0 {
-			remainCount = 0
-		}
+	_, end := paginate.Range(total)
+	remainCount := total - end
+	// page starts with 1,
+	if len(items) == 0 && paginate.Page > 1 && paginate.PageSize > 0 {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "out of page",
+			Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d", paginate.Page)),
+			Code:    400,
+		})
 	}
 	if strings.Contains(r.Request.Header.Get("accept"), "application/json;as=Table") {
 		return serverPrint(items)
diff --git a/page/page.go b/page/page.go
index b1c7b5e..fa45319 100644
--- a/page/page.go
+++ b/page/page.go
@@ -27,6 +27,24 @@ func (p *Paginate) Match(m map[string]string) (bool, error) {
 	return Match(m, parts)
 }
 
+// Range returns the bounds [start, end) of the requested page in a result of total items.
+// A Page or PageSize of zero means all the items.
+func (p *Paginate) Range(total int64) (start, end int64) {
+	if p.Page <= 0 || p.PageSize <= 0 {
+		return 0, total
+	}
+	// compare by division, (Page - 1) * PageSize may overflow
+	if p.Page-1 > total/p.PageSize {
+		return total, total
+	}
+	start = (p.Page - 1) * p.PageSize
+	end = total
+	if total-start > p.PageSize {
+		end = start + p.PageSize
+	}
+	return start, end
+}
+
 func (p *Paginate) SearchParts() []string {
 	search := p.Search
 	parts := []string{}
@@ -344,7 +362,10 @@ func MakeupResPaginate(l v1.ListInterface, page Paginate) Paginate {
 		var i int64 = 0
 		remain = &i
 	}
-	page.Total = *remain + (page.Page-1)*page.PageSize + int64(items)
+	page.Total = *remain + int64(items)
+	if page.Page > 1 && page.PageSize > 0 {
+		page.Total += (page.Page - 1) * page.PageSize
+	}
 	return page
 }
 
diff --git a/store/memory/memory.go b/store/memory/memory.go
index f0bffcb..02d0133 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -325,21 +325,7 @@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) s
 		return res
 	}
 	res.Total = l
-	var start, end int64
-	if query.PageSize == 0 {
-		// all resources
-		start = 0
-		end = l
-	} else {
-		start = (query.Page - 1) * query.PageSize
-		end = start + query.PageSize
-		if start >= l {
-			start = l
-		}
-		if end >= l {
-			end = l
-		}
-	}
+	start, end := query.Range(l)
 	for _, r := range resources[start:end] {
 		res.Items = append(res.Items, r.Obj)
 	}
-- 
2.43.0


From 8799c9a65423aa8209e492db87a46289076ddc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 04/40] fix: keep every advanced search part when a namespace
 or cluster restriction is added

---
 kube/label.go |  9 +++++++++
 page/page.go  | 52 +++++++++++++++++++++++++++++++++------------------
 2 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/kube/label.go b/kube/label.go
index e3df13e..bbf3f61 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -65,6 +65,15 @@ func ParseToLabelSelector(selector string) (*v1.LabelSelector, error) {
 			if !ok {
 				return nil, fmt.Errorf("equals operator has exactly one value but it cannot be retrieved")
 			}
+			if old, ok := labelSelector.MatchLabels[req.Key()]; ok && old != val {
+				// MatchLabels holds one value per key, keep both conditions
+				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
+					Key:      req.Key(),
+					Operator: v1.LabelSelectorOpIn,
+					Values:   []string{val},
+				})
+				continue
+			}
 			labelSelector.MatchLabels[req.Key()] = val
 			continue
 		case selection.In:
diff --git a/page/page.go b/page/page.go
index fa45319..481cde6 100644
--- a/page/page.go
+++ b/page/page.go
@@ -156,26 +156,33 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 	return reverse, nil
 }
 
+// advancedSelector returns the selector of an advanced search part.
+func advancedSelector(part string) (string, bool) {
+	part = strings.TrimSpace(part)
+	if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+		return "", false
+	}
+	return part[len(constants.AdvancedSearchPrefix):], true
+}
+
+// SearchSelector returns the conjunction of all the advanced search parts.
 func (p *Paginate) SearchSelector() (*v1.LabelSelector, error) {
-	s := v1.LabelSelector{}
-	parts := p.SearchParts()
-	search := ""
-	for _, part := range parts {
-		if strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
-			search = part
-			break
+	selectors := []string{}
+	for _, part := range p.SearchParts() {
+		if selector, ok := advancedSelector(part); ok {
+			if selector == "" {
+				return nil, fmt.Errorf("search format error")
+			}
+			if _, err := kube.ParseToLabelSelector(selector); err != nil {
+				return nil, err
+			}
+			selectors = append(selectors, selector)
 		}
 	}
-	if search == "" {
-		return &s, nil
-	}
-	if !strings.HasPrefix(search, constants.AdvancedSearchPrefix) {
-		return nil, fmt.Errorf("")
-	}
-	if len(constants.AdvancedSearchPrefix) == len(search) {
-		return &s, nil
+	if len(selectors) == 0 {
+		return &v1.LabelSelector{}, nil
 	}
-	return kube.ParseToLabelSelector(search[len(constants.AdvancedSearchPrefix):])
+	return kube.ParseToLabelSelector(strings.Join(selectors, ","))
 }
 
 func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
@@ -186,7 +193,7 @@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 	}
 	pps := []string{constants.AdvancedSearchPrefix + sstr}
 	for _, part := range parts {
-		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+		if _, ok := advancedSelector(part); !ok {
 			pps = append(pps, part)
 		}
 	}
@@ -199,7 +206,11 @@ func (p *Paginate) SetSearchWithParts(parts []string) {
 		return strings.ReplaceAll(s, ";", ";;")
 	}
 	pps := []string{}
-	for _, part := range parts {
+	for i, part := range parts {
+		if i > 0 && strings.HasPrefix(part, ";") {
+			// keep the separator apart from a part starting with it
+			part = " " + part
+		}
 		pps = append(pps, doubleSep(part))
 	}
 	p.Search = strings.Join(pps, ";")
@@ -224,6 +235,7 @@ func (p *Paginate) Namespaces(nss []string) error {
 		}
 	}
 	s.MatchExpressions = mes
+	delete(s.MatchLabels, nsKey)
 	return p.SetSearchSelector(s)
 }
 
@@ -251,6 +263,7 @@ func (p *Paginate) Clusters(css []string) error {
 		}
 	}
 	s.MatchExpressions = mes
+	delete(s.MatchLabels, nsKey)
 	return p.SetSearchSelector(s)
 }
 
@@ -263,6 +276,9 @@ func (p *Paginate) GetClusters() []string {
 		return nil
 	}
 	nsKey := "cluster"
+	if c, ok := s.MatchLabels[nsKey]; ok {
+		return []string{c}
+	}
 	for _, r := range s.MatchExpressions {
 		if r.Key == nsKey {
 			return r.Values
-- 
2.43.0


From 979f3e5a51783b7558530895c6fb56fa89550b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 05/40] fix: restrict unaddressed reads to the default cluster
 whatever it is called

---
 api/extend/deploy2service.go | 4 ++--
 api/proxy.go                 | 9 +++++----
 store/interface.go           | 2 ++
 store/memory/memory.go       | 3 +++
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 1dada9e..78031d8 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -35,9 +35,9 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		cluster = common.GetConfig().DefaultCluster
 	}
 	p := page.Paginate{Search: "name=" + dep}
-	_ = p.Clusters([]string{cluster})
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
+		Cluster:   cluster,
 		Paginate:  p,
 	})
 	if res.Error != nil {
@@ -54,9 +54,9 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		}
 	}
 	p = page.Paginate{}
-	_ = p.Clusters([]string{cluster})
 	res = r.Store.Query(svcGvr, store.Query{
 		Namespace: ns,
+		Cluster:   cluster,
 		Paginate:  p,
 	})
 	if res.Error != nil {
diff --git a/api/proxy.go b/api/proxy.go
index 32c5899..8041850 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -227,11 +227,10 @@ func Proxy(r *ReqContext) interface{} {
 	// default only get default cluster's resources,
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
+	queryCluster := ""
 	if cs := paginate.GetClusters(); len(cs) == 0 {
-		err = paginate.Clusters([]string{common.GetConfig().DefaultCluster})
-		if err != nil {
-			log.Errorf("set cluster error: %v", err)
-		}
+		// the name may not be a valid label value, so it can not be set by paginate.Clusters()
+		queryCluster = common.GetConfig().DefaultCluster
 	}
 	log.Debugf("got paginate %v", paginate)
 
@@ -241,6 +240,7 @@ func Proxy(r *ReqContext) interface{} {
 		// exists label selector
 		res := r.Store.Query(gvr, store.Query{
 			Namespace: namespace,
+			Cluster:   queryCluster,
 			Paginate: page.Paginate{
 				Sort:   paginate.Sort,
 				Search: paginate.Search,
@@ -279,6 +279,7 @@ func Proxy(r *ReqContext) interface{} {
 	} else {
 		res := r.Store.Query(gvr, store.Query{
 			Namespace: namespace,
+			Cluster:   queryCluster,
 			Paginate:  *paginate,
 		})
 		if res.Error != nil {
diff --git a/store/interface.go b/store/interface.go
index 11d9cd3..48be831 100644
--- a/store/interface.go
+++ b/store/interface.go
@@ -9,6 +9,8 @@ type Sort func(i, j int) bool
 
 type Query struct {
 	Namespace string
+	// Cluster restricts the query to one cluster if it is not empty.
+	Cluster string
 	page.Paginate
 }
 
diff --git a/store/memory/memory.go b/store/memory/memory.go
index 02d0133..6593fcc 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -303,6 +303,9 @@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) s
 		namespaceName,
 		syncResourceStore[string, store.Object],
 	]) {
+		if query.Cluster != "" && query.Cluster != string(cname) {
+			return
+		}
 		c.ForEach(func(ns namespaceName, nssObj *syncResourceStore[string, store.Object]) {
 			if query.Namespace == "" || query.Namespace == string(ns) {
 				nssObj.ForEach(func(name string, obj *store.Object) {
-- 
2.43.0


From 8c1dbf97cdc04c4975bb1d6c4dc6ca50c2b7c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 06/40] fix: derive a deployment's services from its own pods
 only

---
 api/extend/deploy2service.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 78031d8..842e029 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -10,7 +10,6 @@ import (
 
 	"github.com/DaoCloud/ckube/api"
 	"github.com/DaoCloud/ckube/common"
-	"github.com/DaoCloud/ckube/page"
 	"github.com/DaoCloud/ckube/store"
 	"github.com/DaoCloud/ckube/utils"
 	"github.com/DaoCloud/ckube/watcher"
@@ -34,30 +33,25 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if cluster == "" {
 		cluster = common.GetConfig().DefaultCluster
 	}
-	p := page.Paginate{Search: "name=" + dep}
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
 		Cluster:   cluster,
-		Paginate:  p,
 	})
 	if res.Error != nil {
 		return res.Error
 	}
-	var labels map[string]string
+	podLabels := []map[string]string{}
 	for _, podIf := range res.Items {
 		if pod, ok := podIf.(v12.Object); ok {
 			depName := getDeploymentName(pod)
-			if depName != "" {
-				labels = pod.GetLabels()
-				break
+			if depName != "" && depName == dep {
+				podLabels = append(podLabels, pod.GetLabels())
 			}
 		}
 	}
-	p = page.Paginate{}
 	res = r.Store.Query(svcGvr, store.Query{
 		Namespace: ns,
 		Cluster:   cluster,
-		Paginate:  p,
 	})
 	if res.Error != nil {
 		return res.Error
@@ -70,8 +64,14 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		} else {
 			svc = svcIf.(*v1.Service)
 		}
-		if svc.Spec.Selector != nil && utils.IsSubsetOf(svc.Spec.Selector, labels) {
-			services = append(services, svc)
+		if len(svc.Spec.Selector) == 0 {
+			continue
+		}
+		for _, labels := range podLabels {
+			if utils.IsSubsetOf(svc.Spec.Selector, labels) {
+				services = append(services, svc)
+				break
+			}
 		}
 	}
 	return services
-- 
2.43.0


From 120d79db0dd32ba82aebe491fb8ba304f52124a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 07/40] fix: answer an empty list with an empty array

---
 api/proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 8041850..d594bc4 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -290,7 +290,7 @@ func Proxy(r *ReqContext) interface{} {
 				Code:    400,
 			})
 		}
-		items = res.Items
+		items = append(items, res.Items...) // never null
 		total = res.Total
 	}
 	apiVersion := ""
-- 
2.43.0


From f20cffb7027c9249ec8159f93483211a5b46a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 08/40] fix: merge the chunks of long queries in the order of
 their offsets

---
 kube/label.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kube/label.go b/kube/label.go
index bbf3f61..3b0f9d1 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -31,7 +31,13 @@ func MergeValues(values []string) (string, error) {
 	if len(values) == 1 {
 		return values[0], nil
 	}
-	sort.Strings(values)
+	// offsets have at least 4 digits, one with more digits is greater.
+	sort.Slice(values, func(i, j int) bool {
+		if di, dj := strings.Index(values[i], "."), strings.Index(values[j], "."); di != dj {
+			return di < dj
+		}
+		return values[i] < values[j]
+	})
 	b := strings.Builder{}
 	for _, v := range values {
 		parts := strings.Split(v, ".")
-- 
2.43.0


From eb6fa4245e31676f2d1deac28383fa1f4ca6ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 09/40] fix: encode queries with any characters into valid
 label values

---
 page/page.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index 481cde6..152cb9c 100644
--- a/page/page.go
+++ b/page/page.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
@@ -327,12 +328,28 @@ func QueryDeleteOptions(options v1.DeleteOptions, cluster string) (v1.DeleteOpti
 	return options, nil
 }
 
+// escapeForLabel escapes the characters of a JSON text whose base64 encoding
+// contains '+' or '/', which are not allowed in a label value.
+func escapeForLabel(bs []byte) []byte {
+	res := make([]byte, 0, len(bs))
+	for _, r := range string(bs) {
+		if r != '?' && r < '~' {
+			res = append(res, byte(r))
+			continue
+		}
+		for _, u := range utf16.Encode([]rune{r}) {
+			res = append(res, []byte(fmt.Sprintf("\\u%04x", u))...)
+		}
+	}
+	return res
+}
+
 func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, error) {
 	bs, _ := json.Marshal(page)
 	if string(bs) == "{}" {
 		return options, nil
 	}
-	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(bs)
+	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(escapeForLabel(bs))
 	//if options.LabelSelector == "" {
 	//	options.LabelSelector = fmt.Sprintf("%s notin (%s)", common.PaginateKey, s)
 	//	return options
-- 
2.43.0


From 762ffc5b8ba0c3a93c515fdf8b63879665d41b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 10/40] fix: keep the body of forwarded delete requests

---
 api/proxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index d594bc4..c1f6c41 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -126,6 +126,9 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 				options.DryRun = options.DryRun[1:]
 				bs, _ := json.Marshal(options)
 				r.Body = wrapReader(bytes.NewBuffer(bs))
+			} else if len(opts) > 0 {
+				// the body has been read, restore it for the api server.
+				r.Body = wrapReader(bytes.NewBuffer(opts))
 			}
 		} else {
 			log.Warnf("read body error: %v", err)
-- 
2.43.0


From 76fb48619d90b1dffe6ca117b18f46afd0e2229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 11/40] fix: never forward addressing markers and embedded list
 options

---
 api/proxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index c1f6c41..03653d5 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -134,6 +134,7 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 			log.Warnf("read body error: %v", err)
 		}
 	}
+	r.URL.RawQuery = query.Encode()
 	if labelSelectorStr != "" {
 		var err error
 		labels, err = kube.ParseToLabelSelector(labelSelectorStr)
@@ -174,6 +175,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		if len(labels.MatchLabels) != 0 || len(labels.MatchExpressions) != 0 {
 			// if labelSelectorStr is empty, v1.FormatLabelSelector will return "<none>", so we should not use it.
 			query.Set("labelSelector", v1.FormatLabelSelector(labels))
+		} else {
+			query.Del("labelSelector")
 		}
 	}
 	r.URL.RawQuery = query.Encode()
-- 
2.43.0


From 1cd2ed0b74a4ea29c9ebee5c5d76e8beb4cf21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 12/40] fix: forward requests unaltered and once, and answer
 with the upstream's status and body

Forwarding rebuilt the request with the typed client: HEAD and OPTIONS had no
verb and crashed, success codes became 200, error bodies were replaced by a
generic status, answers with Retry-After repeated the request with its body
already consumed, escaped slashes and path prefixes of api servers were lost,
and every request set the timeout of the client shared by all the others
(which does not even exist for plain http servers).
---
 api/proxy.go | 97 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 41 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 03653d5..c46829a 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -14,10 +14,8 @@ import (
 	"time"
 
 	"github.com/gorilla/mux"
-	"k8s.io/apimachinery/pkg/api/errors"
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	k8labels "k8s.io/apimachinery/pkg/labels"
-	"k8s.io/apimachinery/pkg/types"
 	"k8s.io/client-go/rest"
 
 	"github.com/DaoCloud/ckube/common"
@@ -419,18 +417,18 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 		}
 	}
 	r.Request.URL.RawQuery = q.Encode()
-	u := r.Request.URL.String()
-	log.Debugf("proxyPass url: %s", u)
 	timeout := 30 * time.Minute
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
-	reader, err := getRequest(r, cluster, timeout).RequestURI(u).Stream(ctx)
+	resp, err := doRequest(ctx, r, cluster, timeout)
 	if err != nil {
-		if es, ok := err.(*errors.StatusError); ok {
-			return errorProxy(r.Writer, es.ErrStatus)
-		}
 		return err
 	}
+	reader := resp.Body
+	defer reader.Close()
+	if resp.StatusCode < 200 || resp.StatusCode > 299 {
+		return writeResponse(r.Writer, resp)
+	}
 	r.Writer.Header().Set("Content-Type", "application/json")
 	r.Writer.Header().Set("Transfer-Encoding", "chunked")
 	r.Writer.Header().Set("Connection", "keep-alive")
@@ -455,32 +453,54 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
-func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
+// doRequest sends the request to the api server of the cluster, as it is.
+// It uses a client of its own, so that requests do not change each other's timeout.
+func doRequest(ctx context.Context, r *ReqContext, cluster string, timeout time.Duration) (*http.Response, error) {
 	c := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
-	c.Client.Timeout = timeout
-	var req *rest.Request
-	switch r.Request.Method {
-	case http.MethodGet:
-		return c.Get()
-	case http.MethodPost:
-		req = c.Post()
-	case http.MethodDelete:
-		req = c.Delete()
-	case http.MethodPut:
-		req = c.Put()
-	case http.MethodPatch:
-		req = c.Patch(types.PatchType(r.Request.Header.Get("Content-Type")))
-	default:
-		log.Errorf("unexpected method: %s", r.Request.Method)
-		return nil
-	}
-	// for k, v := range r.Request.Header {
-	//	if len(v) > 0 {
-	//		req = req.SetHeader(k, v[0])
-	//	}
-	// }
-	req = req.Body(r.Request.Body)
-	return req
+	client := http.Client{}
+	if c.Client != nil {
+		client = *c.Client
+	}
+	client.Timeout = timeout
+	client.CheckRedirect = func(*http.Request, []*http.Request) error {
+		return http.ErrUseLastResponse
+	}
+	// the api server may be served under a path prefix
+	u := c.Verb(r.Request.Method).AbsPath("/").URL()
+	prefix := strings.TrimSuffix(u.Path, "/")
+	escapedPrefix := strings.TrimSuffix(u.EscapedPath(), "/")
+	u.Path = prefix + r.Request.URL.Path
+	u.RawPath = escapedPrefix + r.Request.URL.EscapedPath()
+	u.RawQuery = r.Request.URL.RawQuery
+	log.Debugf("proxyPass url: %s", u)
+	req, err := http.NewRequestWithContext(ctx, r.Request.Method, u.String(), r.Request.Body)
+	if err != nil {
+		return nil, err
+	}
+	if ct := r.Request.Header.Get("Content-Type"); ct != "" {
+		req.Header.Set("Content-Type", ct)
+	}
+	req.Header.Set("Accept", "application/json, */*")
+	return client.Do(req)
+}
+
+// writeResponse answers with the status code and the body of the api server.
+func writeResponse(w http.ResponseWriter, resp *http.Response) interface{} {
+	bs, err := io.ReadAll(resp.Body)
+	if err != nil {
+		return err
+	}
+	ct := resp.Header.Get("Content-Type")
+	if ct == "" {
+		ct = "application/json"
+	}
+	w.Header().Set("Content-Type", ct)
+	if l := resp.Header.Get("Location"); l != "" {
+		w.Header().Set("Location", l)
+	}
+	w.WriteHeader(resp.StatusCode)
+	_, _ = w.Write(bs)
+	return nil
 }
 
 func proxyPass(r *ReqContext, cluster string) interface{} {
@@ -498,18 +518,13 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	if isWatchRequest(r.Request) {
 		return proxyPassWatch(r, cluster)
 	}
-	u := r.Request.URL.String()
-	log.Debugf("proxyPass url: %s", u)
 	timeout := time.Minute
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
-	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
+	resp, err := doRequest(ctx, r, cluster, timeout)
 	if err != nil {
-		if es, ok := err.(*errors.StatusError); ok {
-			return errorProxy(r.Writer, es.ErrStatus)
-		}
 		return err
 	}
-	r.Writer.Header().Set("Content-Type", "application/json")
-	return res
+	defer resp.Body.Close()
+	return writeResponse(r.Writer, resp)
 }
-- 
2.43.0


From ddc056028afaa027cab41acbde2e7c1c923d10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 13/40] fix: acknowledge a forwarded watch at once and release
 it when the client leaves

---
 api/proxy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index c46829a..45f2573 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -418,7 +418,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 	r.Request.URL.RawQuery = q.Encode()
 	timeout := 30 * time.Minute
-	ctx, cancel := context.WithTimeout(context.Background(), timeout)
+	// release the upstream stream as soon as the client leaves
+	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
 	resp, err := doRequest(ctx, r, cluster, timeout)
 	if err != nil {
@@ -432,6 +433,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	r.Writer.Header().Set("Content-Type", "application/json")
 	r.Writer.Header().Set("Transfer-Encoding", "chunked")
 	r.Writer.Header().Set("Connection", "keep-alive")
+	// the watch is established, do not wait for the first event to tell
+	r.Writer.WriteHeader(http.StatusOK)
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-- 
2.43.0


From cd544afa6dcaa5d0281e119e5543cb11485041e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 14/40] fix: cache kinds whose name ends in a letter of "List"

---
 watcher/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 5a205ab..d4f820d 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -115,7 +115,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
-		Kind:    strings.TrimRight(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
 	gv := schema.GroupVersion{
 		Group:   r.Group,
-- 
2.43.0


From b2e2461688004109ade69fa03e3265d890260adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 15/40] fix: keep large numbers of custom objects exact

---
 watcher/watcher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index d4f820d..36303a3 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -51,7 +51,10 @@ type ObjType struct {
 
 func (o *ObjType) UnmarshalJSON(bytes []byte) error {
 	m := map[string]interface{}{}
-	_ = json.Unmarshal(bytes, &m)
+	decoder := json.NewDecoder(strings.NewReader(string(bytes)))
+	// keep numbers as they are, float64 does not hold every integer.
+	decoder.UseNumber()
+	_ = decoder.Decode(&m)
 	if v, ok := m["apiVersion"]; ok {
 		o.APIVersion = v.(string)
 	}
-- 
2.43.0


From 95eab4bb42458fd68a7ad470cb75080748ce96a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 16/40] fix: a stopped watcher ends connections being
 established and writes nothing more

---
 watcher/watcher.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 36303a3..bf5adb7 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -25,12 +25,17 @@ type watcher struct {
 	resources      []store.GroupVersionResource
 	store          store.Store
 	stop           chan struct{}
+	ctx            context.Context
+	cancel         context.CancelFunc
 	lock           sync.Mutex
 	Watcher
 }
 
 func NewWatcher(clusterConfigs map[string]rest.Config, resources []store.GroupVersionResource, store store.Store) Watcher {
+	ctx, cancel := context.WithCancel(context.Background())
 	return &watcher{
+		ctx:            ctx,
+		cancel:         cancel,
 		clusterConfigs: clusterConfigs,
 		resources:      resources,
 		store:          store,
@@ -40,6 +45,8 @@ func NewWatcher(clusterConfigs map[string]rest.Config, resources []store.GroupVe
 
 func (w *watcher) Stop() error {
 	close(w.stop)
+	// end the connections being established, too
+	w.cancel()
 	return nil
 }
 
@@ -144,7 +151,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 			return
 		default:
 		}
-		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
+		ctx, cancel := context.WithTimeout(w.ctx, time.Hour)
 		url := ""
 		if r.Group == "" {
 			url = fmt.Sprintf("/api/%s/%s?watch=true", r.Version, r.Resource)
@@ -161,6 +168,14 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 			for {
 				select {
 				case rr, open := <-ww.ResultChan():
+					select {
+					case <-w.stop:
+						// stopped while waiting, do not touch the store any more
+						ww.Stop()
+						cancel()
+						return
+					default:
+					}
 					if first {
 						// only clean resource at the first time
 						// to avoid the resources gone after server break.
-- 
2.43.0


From 06fa8bbb0696ebc1f03c811abcf5cce622c05728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 17/40] fix: register the kinds of custom objects before
 anything is decoded

Registering them in the global scheme while other streams decode with it is a
concurrent map access that kills the process.
---
 watcher/watcher.go | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index bf5adb7..23a5fc2 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -5,12 +5,13 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
-	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/runtime/serializer"
+	utilruntime "k8s.io/apimachinery/pkg/util/runtime"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/kubernetes/scheme"
 	"k8s.io/client-go/rest"
@@ -27,7 +28,8 @@ type watcher struct {
 	stop           chan struct{}
 	ctx            context.Context
 	cancel         context.CancelFunc
-	lock           sync.Mutex
+	scheme         *runtime.Scheme
+	codecs         serializer.CodecFactory
 	Watcher
 }
 
@@ -121,29 +123,33 @@ func (o ObjType) DeepCopyObject() runtime.Object {
 	}
 }
 
-func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
-	gvk := schema.GroupVersionKind{
-		Group:   r.Group,
-		Version: r.Version,
-		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
-	}
-	gv := schema.GroupVersion{
-		Group:   r.Group,
-		Version: r.Version,
-	}
-	w.lock.Lock()
-	if _, ok := scheme.Scheme.KnownTypes(gv)[gvk.Kind]; !ok {
-		scheme.Scheme.AddKnownTypeWithName(gvk, &ObjType{})
+// registerKinds makes the kinds of all resources decodable. It must be done before
+// any of them is decoded, a scheme can not be changed while it is used.
+func (w *watcher) registerKinds() {
+	w.scheme = runtime.NewScheme()
+	v1.AddToGroupVersion(w.scheme, schema.GroupVersion{Version: "v1"})
+	utilruntime.Must(scheme.AddToScheme(w.scheme))
+	for _, r := range w.resources {
+		gvk := schema.GroupVersionKind{
+			Group:   r.Group,
+			Version: r.Version,
+			Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		}
+		if _, ok := w.scheme.KnownTypes(gvk.GroupVersion())[gvk.Kind]; !ok {
+			w.scheme.AddKnownTypeWithName(gvk, &ObjType{})
+		}
 	}
-	w.lock.Unlock()
+	w.codecs = serializer.NewCodecFactory(w.scheme)
+}
+
+func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	config := w.clusterConfigs[cluster]
 
 	config.GroupVersion = &schema.GroupVersion{
 		Group:   r.Group,
 		Version: r.Version,
 	}
-	scheme.Codecs.UniversalDeserializer()
-	config.NegotiatedSerializer = scheme.Codecs.WithoutConversion()
+	config.NegotiatedSerializer = w.codecs.WithoutConversion()
 	rt, _ := rest.RESTClientFor(&config)
 	for {
 		select {
@@ -211,6 +217,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 }
 
 func (w *watcher) Start() error {
+	w.registerKinds()
 	for _, r := range w.resources {
 		for c := range w.clusterConfigs {
 			go w.watchResources(r, c)
-- 
2.43.0


From 8dc0bf499627d30482be204d0733286023fb5f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 18/40] fix: watch api servers served under a path prefix

---
 watcher/watcher.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 23a5fc2..08f2c80 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -160,12 +160,12 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 		ctx, cancel := context.WithTimeout(w.ctx, time.Hour)
 		url := ""
 		if r.Group == "" {
-			url = fmt.Sprintf("/api/%s/%s?watch=true", r.Version, r.Resource)
+			url = fmt.Sprintf("/api/%s/%s", r.Version, r.Resource)
 		} else {
-			url = fmt.Sprintf("/apis/%s/%s/%s?watch=true", r.Group, r.Version, r.Resource)
+			url = fmt.Sprintf("/apis/%s/%s/%s", r.Group, r.Version, r.Resource)
 		}
 		first := true
-		ww, err := rt.Get().RequestURI(url).Timeout(time.Hour).Watch(ctx)
+		ww, err := rt.Get().AbsPath(url).Param("watch", "true").Timeout(time.Hour).Watch(ctx)
 		if err != nil {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
 			time.Sleep(time.Second * 15)
-- 
2.43.0


From 4443e984dce67e3523cc3590a78e5d76eae6caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 19/40] fix: ckube-plugin finds the command and the selector
 wherever they stand and fails when kubectl is not run as asked

---
 cmd/ckube-plugin/main.go | 92 ++++++++++++++++++++++++++++++----------
 1 file changed, 69 insertions(+), 23 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index afe35a8..c283de6 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -18,36 +18,70 @@ const (
 	notSupport
 )
 
+// optionsWithValue are the options whose value is the next argument,
+// which may stand before the sub command.
+var optionsWithValue = map[string]bool{
+	"--clusters": true, "-l": true, "--selector": true,
+	"-n": true, "--namespace": true, "--kubeconfig": true, "--context": true, "--cluster": true,
+	"-s": true, "--server": true, "--token": true, "--user": true, "--as": true, "--as-group": true,
+	"--cache-dir": true, "--certificate-authority": true, "--client-certificate": true, "--client-key": true,
+	"--request-timeout": true, "--tls-server-name": true, "-v": true, "--v": true,
+	"-o": true, "--output": true, "-f": true, "--filename": true,
+}
+
 func main() {
 	clusters := ""
 	args := []string{}
+	rest := []string{} // from -- on, not ours
 	typ := notSupport
-	selectorPos := 0
+	command := ""
+	selectorPos := -1
+	selectorPrefix := ""
 	for i := 1; i < len(os.Args); i++ {
 		a := os.Args[i]
-		switch a {
-		case "get":
-			typ = get
-		case "create":
-			typ = create
-			// case "delete":
-			//	typ = del
+		if a == "--" {
+			rest = os.Args[i:]
+			break
+		}
+		if strings.HasPrefix(a, "--clusters=") {
+			clusters = strings.TrimPrefix(a, "--clusters=")
+			continue
 		}
 		if a == "--clusters" {
 			if i+1 < len(os.Args) {
 				clusters = os.Args[i+1]
 				i++
-				continue
 			}
-		} else {
-			args = append(args, a)
+			continue
 		}
-		if a == "-l" || a == "--selector" {
-			if i+1 < len(os.Args) {
-				selectorPos = i + 1
+		if command == "" && !strings.HasPrefix(a, "-") {
+			command = a
+		}
+		args = append(args, a)
+		for _, prefix := range []string{"--selector=", "-l=", "-l"} {
+			if strings.HasPrefix(a, prefix) && a != "-l" {
+				selectorPos = len(args) - 1
+				selectorPrefix = prefix
+				break
+			}
+		}
+		if optionsWithValue[a] && i+1 < len(os.Args) {
+			i++
+			args = append(args, os.Args[i])
+			if a == "-l" || a == "--selector" {
+				selectorPos = len(args) - 1
+				selectorPrefix = ""
 			}
 		}
 	}
+	switch command {
+	case "get":
+		typ = get
+	case "create":
+		typ = create
+		// case "delete":
+		//	typ = del
+	}
 	if typ == notSupport {
 		log.Errorf("ckube plugin not support current subcommad")
 		os.Exit(1)
@@ -59,34 +93,46 @@ func main() {
 		switch typ {
 		case get:
 			p := page.Paginate{}
-			_ = p.Clusters(cs)
+			if err := p.Clusters(cs); err != nil {
+				log.Errorf("clusters %v error: %v", clusters, err)
+				os.Exit(2)
+			}
 			selector := ""
-			if selectorPos != 0 {
-				selector = args[selectorPos]
+			if selectorPos >= 0 {
+				selector = strings.TrimPrefix(args[selectorPos], selectorPrefix)
 			}
-			o, _ := page.QueryListOptions(metav1.ListOptions{
+			o, err := page.QueryListOptions(metav1.ListOptions{
 				LabelSelector: selector,
 			}, p)
-			if selectorPos == 0 {
+			if err != nil {
+				log.Errorf("selector %v error: %v", selector, err)
+				os.Exit(2)
+			}
+			if selectorPos < 0 {
 				args = append(args, "-l", o.LabelSelector)
 			} else {
-				args[selectorPos] = o.LabelSelector
+				args[selectorPos] = selectorPrefix + o.LabelSelector
 			}
 		case create, update:
 			if len(cs) > 1 {
 				log.Errorf("create resource can only specified one cluster, error: %v", clusters)
 				os.Exit(2)
 			}
-			p := page.Paginate{}
-			_ = p.Clusters(cs)
 			o, _ := page.QueryCreateOptions(metav1.CreateOptions{}, cs[0])
 			args = append(args, "--field-manager", o.FieldManager)
 		}
 	}
+	args = append(args, rest...)
 	c := exec.Command("kubectl", args...)
 	// fmt.Printf("args %v\n", args)
 	c.Stdin = os.Stdin
 	c.Stdout = os.Stdout
 	c.Stderr = os.Stderr
-	_ = c.Run()
+	if err := c.Run(); err != nil {
+		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
+			os.Exit(ee.ExitCode())
+		}
+		log.Errorf("run kubectl error: %v", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From b3542af2fa96943a0b843052002c0459ab4d6a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 20/40] fix: replace the store and the clients of the server
 together

---
 server/server.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/server/server.go b/server/server.go
index 2f87510..042267e 100644
--- a/server/server.go
+++ b/server/server.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"runtime/debug"
 	"strings"
+	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -29,10 +30,12 @@ type Server interface {
 }
 
 type muxServer struct {
-	LogLevel       string
-	ListenAddr     string
-	router         *mux.Router
-	server         *http.Server
+	LogLevel   string
+	ListenAddr string
+	router     *mux.Router
+	server     *http.Server
+	// lock guards store and clusterClients, which are replaced together
+	lock           sync.RWMutex
 	store          store.Store
 	clusterClients map[string]kubernetes.Interface
 }
@@ -117,6 +120,8 @@ func (m *muxServer) Stop() error {
 }
 
 func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
 	m.store = s
 	m.clusterClients = clis
 }
@@ -162,9 +167,12 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						return
 					}
 				}
+				m.lock.RLock()
+				clusterClients, resStore := m.clusterClients, m.store
+				m.lock.RUnlock()
 				var res = route.handler(&api.ReqContext{
-					ClusterClients: m.clusterClients,
-					Store:          m.store,
+					ClusterClients: clusterClients,
+					Store:          resStore,
 					Request:        r,
 					Writer:         writer,
 				})
-- 
2.43.0


From 619dbdb7fb8993d027f815274b1f4c6b503cee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 21/40] fix: reload files that are moved away or recreated late

---
 utils/fs_watcher.go | 106 ++++++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 49 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 4c16ab3..6c57e10 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"io"
 	"os"
+	"sync"
 	"time"
 
 	"github.com/fsnotify/fsnotify"
@@ -32,24 +33,20 @@ type fixedFileWatcher struct {
 	files     []string
 	fswatcher *fsnotify.Watcher
 	events    chan Event
+	done      chan struct{}
+	closeOnce sync.Once
 }
 
 func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
-	w, err := fsnotify.NewWatcher()
-	if err != nil {
-		return nil, err
-	}
 	for _, f := range files {
 		if _, err := os.Stat(f); err != nil {
 			return nil, err
 		}
-		if err := w.Add(f); err != nil {
-			return nil, err
-		}
 	}
 	return &fixedFileWatcher{
 		files:  files,
 		events: make(chan Event),
+		done:   make(chan struct{}),
 	}, nil
 }
 
@@ -64,55 +61,66 @@ func (w *fixedFileWatcher) Start() error {
 			return err
 		}
 	}
-	go func() {
-		for { // nolint:gosimple
-			select {
-			case e, open := <-w.fswatcher.Events:
-				if !open {
-					log.Info("fs watcher closed")
-					return
-				}
-				log.Infof("get file watcher event: %v", e)
-				switch e.Op {
-				case fsnotify.Write:
-					// do reload
-				case fsnotify.Remove:
-					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
-					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
-					_ = w.fswatcher.Remove(e.Name)
-					time.Sleep(time.Second * 2)
-					// 等待一定时间之后重新加入 watcher 队列
-					err := w.fswatcher.Add(e.Name)
-					if err != nil {
-						log.Errorf("add watcher for %s error: %v", e.Name, err)
-						w.events <- Event{
-							Name: e.Name,
-							Type: EventTypeError,
-						}
-						continue
-					}
+	go w.run()
+	return nil
+}
+
+func (w *fixedFileWatcher) run() {
+	defer close(w.events)
+	defer w.fswatcher.Close()
+	// files which do not exist now, whether it has been reported
+	missing := map[string]bool{}
+	ticker := time.NewTicker(time.Second * 2)
+	defer ticker.Stop()
+	for {
+		select {
+		case <-w.done:
+			log.Info("fs watcher closed")
+			return
+		case e, open := <-w.fswatcher.Events:
+			if !open {
+				log.Info("fs watcher closed")
+				return
+			}
+			log.Infof("get file watcher event: %v", e)
+			switch {
+			case e.Op&(fsnotify.Remove|fsnotify.Rename) != 0:
+				// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
+				// 再重新创建，所以我们应该在删除之后重新建立 watcher。
+				_ = w.fswatcher.Remove(e.Name)
+				// 等待一定时间之后重新加入 watcher 队列
+				missing[e.Name] = false
+			case e.Op&fsnotify.Write != 0:
+				// do reload
+				w.send(Event{Name: e.Name, Type: EventTypeChanged})
+			}
+		case <-ticker.C:
+			for f, reported := range missing {
+				if err := w.fswatcher.Add(f); err == nil {
+					delete(missing, f)
 					// do reload
-				default:
-					// do not reload
-					continue
-				}
-				w.events <- Event{
-					Name: e.Name,
-					Type: EventTypeChanged,
+					w.send(Event{Name: f, Type: EventTypeChanged})
+				} else if !reported {
+					log.Errorf("add watcher for %s error: %v", f, err)
+					missing[f] = true
+					w.send(Event{Name: f, Type: EventTypeError})
 				}
 			}
 		}
-	}()
-	return nil
+	}
 }
 
-func (w *fixedFileWatcher) Close() error {
-	if w.fswatcher != nil {
-		w.fswatcher.Close()
-		w.fswatcher = nil
-		close(w.events)
-		w.events = nil
+func (w *fixedFileWatcher) send(e Event) {
+	select {
+	case w.events <- e:
+	case <-w.done:
 	}
+}
+
+func (w *fixedFileWatcher) Close() error {
+	w.closeOnce.Do(func() {
+		close(w.done)
+	})
 	return nil
 }
 
-- 
2.43.0


From 12a0f02e79f92e909d0e7123b6da1d38300c3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 22/40] fix: swap configurations completely, and keep the old
 one while files are missing or empty

The new watcher started counting before the counts were reset, a kube config
being written or deleted loaded as one without clusters, and no file was
watched at all if the default kube config did not exist.
---
 cmd/cacheproxy/main.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 13d4ff1..d1448b0 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -119,6 +119,11 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 			}
 		}
 		log.Debugf("got kube config: %s", bs)
+		if len(kubecfg.Contexts) == 0 {
+			// e.g. the file is being written
+			log.Errorf("no context in kube config %s", kubeConfig)
+			return nil, nil, nil, fmt.Errorf("no context in kube config")
+		}
 		cfg.DefaultCluster = kubecfg.CurrentContext
 
 		for _, ctx := range kubecfg.Contexts {
@@ -157,7 +162,6 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 	}
 	m := memory.NewMemoryStore(indexConf)
 	w := watcher.NewWatcher(clusterConfigs, storeGVRConfig, m)
-	_ = w.Start()
 	return clusterClients, w, m, nil
 }
 
@@ -175,16 +179,21 @@ func main() {
 	if debug {
 		log.SetDebug()
 	}
+	if kubeConfig == "" {
+		// may not exist if running in pod
+		if _, err := os.Stat(defaultConfig); err == nil {
+			kubeConfig = defaultConfig
+		}
+	}
 	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
 	if err != nil {
 		log.Errorf("load from config file error: %v", err)
 		os.Exit(1)
 	}
+	_ = w.Start()
 	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
-	if kubeConfig == "" {
-		files = append(files, defaultConfig)
-	} else {
+	if kubeConfig != "" {
 		files = append(files, kubeConfig)
 	}
 	fixedWatcher, err := utils.NewFixedFileWatcher(files)
@@ -211,10 +220,13 @@ func main() {
 					log.Errorf("watcher: reload config error: %v", err)
 					continue
 				}
-				prommonitor.Resources.Reset()
 				_ = w.Stop()
 				w = rw
+				prommonitor.Resources.Reset()
 				ser.ResetStore(rs, clis) // reset store
+				// the old watcher must not count its resources after the reset,
+				// nor the new one before.
+				_ = w.Start()
 				prommonitor.ConfigReload.WithLabelValues("success").Inc()
 				log.Infof("auto reloaded config successfully")
 			}
-- 
2.43.0


From 03a4df3fd4d1d57a4570113093cd89e5ef71095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 23/40] fix: list the cluster named by the addressing marker

---
 api/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 45f2573..250eff3 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -233,8 +233,9 @@ func Proxy(r *ReqContext) interface{} {
 	// please call paginate.Clusters() before fetch resources
 	queryCluster := ""
 	if cs := paginate.GetClusters(); len(cs) == 0 {
+		// the cluster of the addressing marker, or else the default one.
 		// the name may not be a valid label value, so it can not be set by paginate.Clusters()
-		queryCluster = common.GetConfig().DefaultCluster
+		queryCluster = cluster
 	}
 	log.Debugf("got paginate %v", paginate)
 
-- 
2.43.0


From bf21e8ca231172f1a73c900342758e0e2934ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 24/40] fix: refuse a malformed search even if nothing is
 cached

---
 api/proxy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 250eff3..ebacd9f 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -228,6 +228,14 @@ func Proxy(r *ReqContext) interface{} {
 			Code:    400,
 		})
 	}
+	if _, err := paginate.SearchSelector(); err != nil {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "query error",
+			Reason:  v1.StatusReason(err.Error()),
+			Code:    400,
+		})
+	}
 	// default only get default cluster's resources,
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
-- 
2.43.0


From 2cd769fd3258271598b45d847f1c5621e363f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 25/40] fix: keep cached resources when a watch connection
 fails before it reports anything

---
 watcher/watcher.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 08f2c80..50f8640 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -142,6 +142,10 @@ func (w *watcher) registerKinds() {
 	w.codecs = serializer.NewCodecFactory(w.scheme)
 }
 
+// minStreamLife is how long a stream must have been open without any report
+// to tell that there are no resources.
+const minStreamLife = time.Second * 10
+
 func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	config := w.clusterConfigs[cluster]
 
@@ -170,6 +174,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
 			time.Sleep(time.Second * 15)
 		} else {
+			established := time.Now()
 		resultChan:
 			for {
 				select {
@@ -182,9 +187,12 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 						return
 					default:
 					}
-					if first {
+					reported := open && rr.Type != watch.Error
+					if first && (reported || !open && time.Since(established) >= minStreamLife) {
 						// only clean resource at the first time
 						// to avoid the resources gone after server break.
+						// an error and a connection lost at once, which looks like an empty stream,
+						// do not tell that there are no resources.
 						_ = w.store.Clean(r, cluster)
 						first = false
 					}
-- 
2.43.0


From 43eeb4932a1e4f913b30179567294a08935ef924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 26/40] fix: do not lose the last byte of a forwarded watch
 when it comes with the end of the stream

---
 api/proxy.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index ebacd9f..663e87a 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -447,13 +447,14 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-		_, err := reader.Read(t)
+		n, err := reader.Read(t)
+		// the last byte may come together with the end of the stream
+		buf.Write(t[:n])
 		if err != nil {
 			_, _ = r.Writer.Write(buf.Bytes())
 			return nil
 		}
-		buf.Write(t)
-		if t[0] == '\n' {
+		if n > 0 && t[0] == '\n' {
 			_, _ = r.Writer.Write(buf.Bytes())
 			buf.Reset()
 		}
-- 
2.43.0


From cb9e9c037c3b83c89ffb44a462561f117e7f8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 27/40] fix: forward every option of an addressed delete
 request

---
 api/proxy.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 663e87a..1ff1616 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -119,10 +119,19 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		if err == nil {
 			options := v1.DeleteOptions{}
 			_ = json.Unmarshal(opts, &options)
-			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) {
+			// every other option is forwarded as it is, known to this version or not.
+			fields := map[string]json.RawMessage{}
+			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) && json.Unmarshal(opts, &fields) == nil {
 				cluster = options.DryRun[0][len(clusterPrefix):]
-				options.DryRun = options.DryRun[1:]
-				bs, _ := json.Marshal(options)
+				for k := range fields {
+					if strings.EqualFold(k, "dryRun") {
+						delete(fields, k)
+					}
+				}
+				if len(options.DryRun) > 1 {
+					fields["dryRun"], _ = json.Marshal(options.DryRun[1:])
+				}
+				bs, _ := json.Marshal(fields)
 				r.Body = wrapReader(bytes.NewBuffer(bs))
 			} else if len(opts) > 0 {
 				// the body has been read, restore it for the api server.
-- 
2.43.0


From b7dbf0c413725e90bf24bf89809226973afb918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:56 +0000
Subject: [PATCH 28/40] fix: do not treat requests for resources called watch
 as watch requests

---
 api/proxy.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 1ff1616..d4e497e 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -420,10 +420,10 @@ func isWatchRequest(r *http.Request) bool {
 			return true
 		}
 	}
-	if strings.Contains(r.URL.Path, "/watch/") {
-		return true
-	}
-	return false
+	// /api/v1/watch/... or /apis/group/version/watch/..., but not a resource called watch
+	parts := strings.Split(strings.TrimPrefix(r.URL.Path, "/"), "/")
+	return len(parts) > 3 && parts[0] == "api" && parts[2] == "watch" ||
+		len(parts) > 4 && parts[0] == "apis" && parts[3] == "watch"
 }
 
 func proxyPassWatch(r *ReqContext, cluster string) interface{} {
-- 
2.43.0


From 06f521340c266ead90766ea9a68d2bc8bdec70a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 29/40] fix: find the replica set of a pod among all its owners

---
 api/extend/deploy2service.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 842e029..38bffb9 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -78,10 +78,12 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 }
 
 func getDeploymentName(pod v12.Object) string {
-	if len(pod.GetOwnerReferences()) == 0 || pod.GetOwnerReferences()[0].Kind != "ReplicaSet" {
-		return ""
-	} else {
-		parts := strings.Split(pod.GetOwnerReferences()[0].Name, "-")
-		return strings.Join(parts[:len(parts)-1], "-")
+	// the replica set needs not be the first of the owners
+	for _, owner := range pod.GetOwnerReferences() {
+		if owner.Kind == "ReplicaSet" {
+			parts := strings.Split(owner.Name, "-")
+			return strings.Join(parts[:len(parts)-1], "-")
+		}
 	}
+	return ""
 }
-- 
2.43.0


From a3feb3b11906f6ceeff08e4cc0a2b50788bbb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 30/40] fix: ckube-plugin knows all of kubectl's global options
 that take a value

---
 cmd/ckube-plugin/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index c283de6..4bdbf04 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -26,6 +26,9 @@ var optionsWithValue = map[string]bool{
 	"-s": true, "--server": true, "--token": true, "--user": true, "--as": true, "--as-group": true,
 	"--cache-dir": true, "--certificate-authority": true, "--client-certificate": true, "--client-key": true,
 	"--request-timeout": true, "--tls-server-name": true, "-v": true, "--v": true,
+	"--as-uid": true, "--username": true, "--password": true, "--profile": true, "--profile-output": true,
+	"--log-backtrace-at": true, "--log-dir": true, "--log-file": true, "--log-file-max-size": true,
+	"--log-flush-frequency": true, "--stderrthreshold": true, "--vmodule": true,
 	"-o": true, "--output": true, "-f": true, "--filename": true,
 }
 
-- 
2.43.0


From 7b8a458cc4561238899813f0de5e3a3329c83454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 31/40] fix: let handlers flush through the logging middleware,
 watches by path of the fake server panicked

---
 server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server.go b/server/server.go
index 042267e..a676ce3 100644
--- a/server/server.go
+++ b/server/server.go
@@ -62,6 +62,10 @@ func (w *statusWriter) Write(b []byte) (int, error) {
 	return n, err
 }
 
+func (w *statusWriter) Flush() {
+	w.ResponseWriter.(http.Flusher).Flush()
+}
+
 func loggingMiddleware(next http.Handler) http.Handler {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
 		st := time.Now()
-- 
2.43.0


From 7f90c8d9a8841c1de42974465b1c68e45d54665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 32/40] fix: the fake server updates the object named by the
 path

---
 pkg/client/fake/fake_ckube.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 21daeb3..61a3eeb 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -409,6 +409,17 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	if resourceName == "" {
 		resourceName = obj.Name
 	}
+	if r.Method == "PUT" {
+		// the path names the object
+		if obj.Name != "" && obj.Name != resourceName {
+			errorProxy(writer, metav1.Status{
+				Message: fmt.Sprintf("the name of the object (%s) does not match the name on the URL (%s)", obj.Name, resourceName),
+				Code:    400,
+			})
+			return
+		}
+		obj.Name = resourceName
+	}
 	action := EventActionError
 	switch r.Method {
 	case "POST":
-- 
2.43.0


From 2d5bcedabaa9770c77c2d835338d2a3477310cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 33/40] fix: serve built-in objects with their kind and version

---
 watcher/watcher.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 50f8640..ad3d170 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -130,11 +130,7 @@ func (w *watcher) registerKinds() {
 	v1.AddToGroupVersion(w.scheme, schema.GroupVersion{Version: "v1"})
 	utilruntime.Must(scheme.AddToScheme(w.scheme))
 	for _, r := range w.resources {
-		gvk := schema.GroupVersionKind{
-			Group:   r.Group,
-			Version: r.Version,
-			Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
-		}
+		gvk := w.kindOf(r)
 		if _, ok := w.scheme.KnownTypes(gvk.GroupVersion())[gvk.Kind]; !ok {
 			w.scheme.AddKnownTypeWithName(gvk, &ObjType{})
 		}
@@ -142,6 +138,14 @@ func (w *watcher) registerKinds() {
 	w.codecs = serializer.NewCodecFactory(w.scheme)
 }
 
+func (w *watcher) kindOf(r store.GroupVersionResource) schema.GroupVersionKind {
+	return schema.GroupVersionKind{
+		Group:   r.Group,
+		Version: r.Version,
+		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+	}
+}
+
 // minStreamLife is how long a stream must have been open without any report
 // to tell that there are no resources.
 const minStreamLife = time.Second * 10
@@ -174,6 +178,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
 			time.Sleep(time.Second * 15)
 		} else {
+			gvk := w.kindOf(r)
 			established := time.Now()
 		resultChan:
 			for {
@@ -197,6 +202,10 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 						first = false
 					}
 					if open {
+						if reported {
+							// the decoder strips the kind of built-in objects
+							rr.Object.GetObjectKind().SetGroupVersionKind(gvk)
+						}
 						switch rr.Type {
 						case watch.Added:
 							_ = w.store.OnResourceAdded(r, cluster, rr.Object)
-- 
2.43.0


From 1703f9a5defcb6e16bde59401566a2f835a7c91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 34/40] fix: keep integers exact in the index

---
 utils/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index 071c8e1..2ab21b3 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -1,10 +1,15 @@
 package utils
 
-import "encoding/json"
+import (
+	"encoding/json"
+
+	utiljson "k8s.io/apimachinery/pkg/util/json"
+)
 
 func Obj2JSONMap(obj interface{}) map[string]interface{} {
 	m := make(map[string]interface{})
 	bs, _ := json.Marshal(obj)
-	_ = json.Unmarshal(bs, &m)
+	// integers stay integers, 1000000 is not to become 1e+06
+	_ = utiljson.Unmarshal(bs, &m)
 	return m
 }
-- 
2.43.0


From 2d73e4f93cad29b7d72ed7a91ea119a34f51e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 35/40] fix: evaluate every index expression on its own

---
 store/memory/memory.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 6593fcc..b3a0f63 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -356,9 +356,6 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		Obj:   obj,
 	}
 	mobj := utils.Obj2JSONMap(obj)
-	jp := jsonpath.New("parser")
-	jp.AllowMissingKeys(true)
-	gotmpl := template.New("parser").Funcs(funMap)
 	for k, v := range m.indexConf[gvr] {
 		w := bytes.NewBuffer([]byte{})
 		var exec interface {
@@ -366,14 +363,16 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		}
 		var err error
 		if strings.Contains(v, "{{") {
-			// go template
-			exec, err = gotmpl.Parse(v)
+			// go template, of its own: an empty one would leave the one parsed before in place
+			exec, err = template.New("parser").Funcs(funMap).Parse(v)
 		} else if !strings.Contains(v, "{") {
 			// raw string
 			s.Index[k] = v
 			continue
 		} else {
 			// json path
+			jp := jsonpath.New("parser")
+			jp.AllowMissingKeys(true)
 			_ = jp.Parse(v)
 			exec = jp
 		}
-- 
2.43.0


From 23ea86c2b2f235595bc17ac8f4b6eaeedbe1e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 36/40] fix: notice configuration files replaced without an
 event on the watched file

---
 utils/fs_watcher.go | 47 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 6c57e10..293f792 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"io"
 	"os"
+	"path/filepath"
 	"sync"
 	"time"
 
@@ -32,21 +33,26 @@ const (
 type fixedFileWatcher struct {
 	files     []string
 	fswatcher *fsnotify.Watcher
+	watched   map[string]os.FileInfo
 	events    chan Event
 	done      chan struct{}
 	closeOnce sync.Once
 }
 
 func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
+	names := make([]string, 0, len(files))
 	for _, f := range files {
 		if _, err := os.Stat(f); err != nil {
 			return nil, err
 		}
+		// as they are called in events
+		names = append(names, filepath.Clean(f))
 	}
 	return &fixedFileWatcher{
-		files:  files,
-		events: make(chan Event),
-		done:   make(chan struct{}),
+		files:   names,
+		watched: map[string]os.FileInfo{},
+		events:  make(chan Event),
+		done:    make(chan struct{}),
 	}, nil
 }
 
@@ -57,7 +63,7 @@ func (w *fixedFileWatcher) Start() error {
 	}
 	w.fswatcher = ww
 	for _, f := range w.files {
-		if err := w.fswatcher.Add(f); err != nil {
+		if err := w.add(f); err != nil {
 			return err
 		}
 	}
@@ -65,6 +71,27 @@ func (w *fixedFileWatcher) Start() error {
 	return nil
 }
 
+// add watches the file which is called f now.
+func (w *fixedFileWatcher) add(f string) error {
+	info, err := os.Stat(f)
+	if err != nil {
+		return err
+	}
+	if err := w.fswatcher.Add(f); err != nil {
+		return err
+	}
+	w.watched[f] = info
+	return nil
+}
+
+// replaced tells whether another file than the watched one is called f now.
+// The watched one reports nothing about that as long as it is in use elsewhere,
+// or if f is a link.
+func (w *fixedFileWatcher) replaced(f string) bool {
+	info, err := os.Stat(f)
+	return err != nil || !os.SameFile(info, w.watched[f])
+}
+
 func (w *fixedFileWatcher) run() {
 	defer close(w.events)
 	defer w.fswatcher.Close()
@@ -83,6 +110,10 @@ func (w *fixedFileWatcher) run() {
 				return
 			}
 			log.Infof("get file watcher event: %v", e)
+			if _, ok := w.watched[e.Name]; !ok {
+				// e.g. of a file which has been moved away before
+				continue
+			}
 			switch {
 			case e.Op&(fsnotify.Remove|fsnotify.Rename) != 0:
 				// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
@@ -95,8 +126,14 @@ func (w *fixedFileWatcher) run() {
 				w.send(Event{Name: e.Name, Type: EventTypeChanged})
 			}
 		case <-ticker.C:
+			for _, f := range w.files {
+				if _, ok := missing[f]; !ok && w.replaced(f) {
+					_ = w.fswatcher.Remove(f)
+					missing[f] = false
+				}
+			}
 			for f, reported := range missing {
-				if err := w.fswatcher.Add(f); err == nil {
+				if err := w.add(f); err == nil {
 					delete(missing, f)
 					// do reload
 					w.send(Event{Name: f, Type: EventTypeChanged})
-- 
2.43.0


From 312c1c164080056df681ce40615ab7a975b48158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 37/40] fix: watch the configuration files before loading them

---
 cmd/cacheproxy/main.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index d1448b0..b6634f4 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -185,25 +185,28 @@ func main() {
 			kubeConfig = defaultConfig
 		}
 	}
-	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
-	if err != nil {
-		log.Errorf("load from config file error: %v", err)
-		os.Exit(1)
-	}
-	_ = w.Start()
-	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
 	if kubeConfig != "" {
 		files = append(files, kubeConfig)
 	}
-	fixedWatcher, err := utils.NewFixedFileWatcher(files)
-	if err != nil {
-		log.Errorf("create watcher error: %v", err)
+	// watch the files before they are read, not to miss a change
+	fixedWatcher, watchErr := utils.NewFixedFileWatcher(files)
+	if watchErr != nil {
+		log.Errorf("create watcher error: %v", watchErr)
 	} else {
 		if err := fixedWatcher.Start(); err != nil {
 			panic(fmt.Errorf("watcher start error: %v", err))
 		}
 		defer fixedWatcher.Close()
+	}
+	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
+	if err != nil {
+		log.Errorf("load from config file error: %v", err)
+		os.Exit(1)
+	}
+	_ = w.Start()
+	ser := server.NewMuxServer(listen, clis, s)
+	if watchErr == nil {
 		go func() {
 			for e := range fixedWatcher.Events() {
 				log.Infof("get file watcher event: %v", e)
-- 
2.43.0


From 55301e4489a335053eea28ef6e2797d0a443f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 38/40] fix: read the kubeconfig once, it may be changed while
 it is loaded

---
 cmd/cacheproxy/main.go | 52 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index b6634f4..8582507 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -10,6 +10,7 @@ import (
 	"k8s.io/client-go/kubernetes"
 	"k8s.io/client-go/rest"
 	"k8s.io/client-go/tools/clientcmd"
+	clientcmdapi "k8s.io/client-go/tools/clientcmd/api"
 	kubeapi "k8s.io/client-go/tools/clientcmd/api/v1"
 	"sigs.k8s.io/yaml"
 
@@ -65,6 +66,43 @@ func GetKubernetesClientWithFile(kubeconfig, context string) (kubernetes.Interfa
 	return clientset, err
 }
 
+// parsedKubeConfig is a kubeconfig file as it was when it was read.
+type parsedKubeConfig struct {
+	*clientcmd.ClientConfigLoadingRules
+	config *clientcmdapi.Config
+}
+
+func parseKubeConfig(kubeconfig string, bs []byte) (*parsedKubeConfig, error) {
+	config, err := clientcmd.Load(bs)
+	if err != nil {
+		return nil, err
+	}
+	for _, c := range config.Clusters {
+		c.LocationOfOrigin = kubeconfig
+	}
+	for _, a := range config.AuthInfos {
+		a.LocationOfOrigin = kubeconfig
+	}
+	if err := clientcmd.ResolveLocalPaths(config); err != nil {
+		return nil, err
+	}
+	loadingRules := clientcmd.NewDefaultClientConfigLoadingRules()
+	loadingRules.DefaultClientConfig = &clientcmd.DefaultClientConfig
+	return &parsedKubeConfig{ClientConfigLoadingRules: loadingRules, config: config}, nil
+}
+
+func (p *parsedKubeConfig) Load() (*clientcmdapi.Config, error) {
+	return p.config, nil
+}
+
+func (p *parsedKubeConfig) contextConfig(context string) (*rest.Config, error) {
+	configOverrides := &clientcmd.ConfigOverrides{
+		ClusterDefaults: clientcmd.ClusterDefaults,
+		CurrentContext:  context,
+	}
+	return clientcmd.NewNonInteractiveDeferredLoadingClientConfig(p, configOverrides).ClientConfig()
+}
+
 func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interface, watcher.Watcher, store.Store, error) {
 
 	cfg := common.Config{}
@@ -125,15 +163,21 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 			return nil, nil, nil, fmt.Errorf("no context in kube config")
 		}
 		cfg.DefaultCluster = kubecfg.CurrentContext
+		// do not read the file again, it may have been changed meanwhile
+		parsed, err := parseKubeConfig(kubeConfig, bs)
+		if err != nil {
+			log.Errorf("parse kube config %s error: %v", kubeConfig, err)
+			return nil, nil, nil, err
+		}
 
 		for _, ctx := range kubecfg.Contexts {
-			c := GetK8sConfigConfigWithFile(kubeConfig, ctx.Name)
-			if c == nil {
-				log.Errorf("init k8s config error")
+			c, err := parsed.contextConfig(ctx.Name)
+			if err != nil {
+				log.Errorf("init k8s config error: %v", err)
 				return nil, nil, nil, fmt.Errorf("init k8s config error")
 			}
 			clusterConfigs[ctx.Name] = *c
-			client, err := GetKubernetesClientWithFile(kubeConfig, ctx.Name)
+			client, err := kubernetes.NewForConfig(c)
 			if err != nil {
 				log.Errorf("init k8s client error: %v", err)
 				return nil, nil, nil, err
-- 
2.43.0


From cd1f57d331fe7acb30075b05647ad3258ec39b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 39/40] fix: take every value the api server takes for a watch
 as a watch

---
 api/proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index d4e497e..0461320 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -414,9 +414,9 @@ func serverPrint(items []interface{}) interface{} {
 
 func isWatchRequest(r *http.Request) bool {
 	query := r.URL.Query()
+	// as the api server reads it: everything but "0" and "false" is true
 	if w, ok := query["watch"]; ok {
-		ws := strings.ToLower(w[0])
-		if ws == "1" || ws == "y" || ws == "true" {
+		if w[0] != "0" && !strings.EqualFold(w[0], "false") {
 			return true
 		}
 	}
-- 
2.43.0


From 87862ad15c6228ef2b04b5a0a0ec5f70fc7e8b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 40/40] fix: a watch of the fake server ends with its client

A watch stayed for its ten minutes after its client had left. When they were up it
closed the channel of a later watch from the same remote address and took it out of
the map, so that the later watch was told nothing any more, and panicked at its own end.
---
 pkg/client/fake/fake_ckube.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 61a3eeb..77373c0 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -315,25 +315,27 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 		}
 	}
 
+	wc := make(chan Event)
 	s.watchChanLock.Lock()
-	s.watchChanMap[r.RemoteAddr] = make(chan Event)
+	s.watchChanMap[r.RemoteAddr] = wc
 	s.watchChanLock.Unlock()
-	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
+	defer func() {
+		s.watchChanLock.Lock()
+		// a later watch may have the same remote address, once this client is gone.
+		if s.watchChanMap[r.RemoteAddr] == wc {
+			delete(s.watchChanMap, r.RemoteAddr)
+		}
+		s.watchChanLock.Unlock()
+	}()
+	ctx, cancel := context.WithTimeout(r.Context(), 10*time.Minute)
 	defer cancel()
 	writer.Header().Set("Content-Type", "application/json")
 	writer.Header().Set("Transfer-Encoding", "chunked")
 	writer.Header().Set("Connection", "keep-alive")
 	writer.(http.Flusher).Flush()
 	for {
-		s.watchChanLock.RLock()
-		wc := s.watchChanMap[r.RemoteAddr]
-		s.watchChanLock.RUnlock()
 		select {
 		case <-ctx.Done():
-			s.watchChanLock.Lock()
-			close(s.watchChanMap[r.RemoteAddr])
-			delete(s.watchChanMap, r.RemoteAddr)
-			s.watchChanLock.Unlock()
 			return
 		case e := <-wc:
 			if e.Group == group &&
-- 
2.43.0

