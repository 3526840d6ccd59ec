From 10383fd536e7cc8e7d1cfd11f4a84af78b917dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 01/52] fix: removing an undirected self-link no longer raises
 KeyError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4ce6b5e..cb30505 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -278,7 +278,7 @@ class MultilayerNetwork(object):
                             if node2 not in self._rnet or node1 not in self._rnet[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
-                    else:
+                    elif node1!=node2:
                         del self._net[node2][node1]
                     del self._net[node1][node2]
         else:
-- 
2.43.0


From a981310b09971c12262a6da387776a644a3ffbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 02/52] fix: removing a directed link decreases the total
 degree of both its ends

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index cb30505..c3c9d88 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -275,7 +275,7 @@ class MultilayerNetwork(object):
                         else:
                             if node1 not in self._rnet or node2 not in self._rnet[node1]:
                                 self._totalDegree[node1]=self._totalDegree[node1]-1
-                            if node2 not in self._rnet or node1 not in self._rnet[node2]:
+                            if node2 not in self._net or node1 not in self._net[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
                     elif node1!=node2:
-- 
2.43.0


From 2e605f0c8fb40bdaac5fe64cd5dd118d16b76c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 03/52] fix: asking for an inter-layer link of an uncoupled
 aspect returns noEdge instead of raising

---
 pymnet/net.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index c3c9d88..ec185b3 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1044,6 +1044,8 @@ class MultiplexNetwork(MultilayerNetwork):
                         return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
                     return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
+                elif coupling[0]=="none":
+                    return self.noEdge
                 else:
                     raise Exception("Coupling not implemented: "+str(coupling))
             else:
-- 
2.43.0


From 9ec21204954f6f2779d18939f07703ac58f2d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 04/52] fix: inter-layer strength with uncoupled aspects and
 with coupling networks

---
 pymnet/net.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index ec185b3..8964558 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1105,10 +1105,17 @@ class MultiplexNetwork(MultilayerNetwork):
             raise Exception("Coupling '"+str(coupling_type)+"' not implemented.")
 
     def _get_dim_strength(self,node,aspect,direction="tot"):
-        coupling_str=self.couplings[aspect-1][1]
         coupling_type=self.couplings[aspect-1][0]
+        if coupling_type=="none":
+            return 0
         if isinstance(coupling_type,MultilayerNetwork):
-            raise Exception() #please implement this
+            if direction=="tot":
+                return coupling_type[node[aspect]].str_total()
+            elif direction=="in":
+                return coupling_type[node[aspect]].str_in()
+            elif direction=="out":
+                return coupling_type[node[aspect]].str_out()
+        coupling_str=self.couplings[aspect-1][1]
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
 
 
-- 
2.43.0


From 63da961c1559f8ab21fc5442bfe93a21474ca738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 05/52] fix: iterate over inter-layer neighbors given by a
 coupling network

---
 pymnet/net.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 8964558..9cfe358 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1146,10 +1146,20 @@ class MultiplexNetwork(MultilayerNetwork):
                     yield supernode[:aspect]+(up,)+supernode[aspect+1:]
                 if supernode[1:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
+        elif isinstance(coupling_type,MultilayerNetwork):
+            couplingnode=coupling_type[supernode[aspect]]
+            if direction=="tot":
+                layers=couplingnode.iter_total()
+            elif direction=="in":
+                layers=couplingnode.iter_in()
+            elif direction=="out":
+                layers=couplingnode.iter_out()
+            for n in layers:
+                yield supernode[:aspect]+(n,)+supernode[aspect+1:]
         elif coupling_type=="none":
             pass
         else:
-            raise NotImplemented()
+            raise Exception("Coupling '"+str(coupling_type)+"' not implemented.")
         
     def _select_dimensions(self,node,dims):
         if dims==None:
-- 
2.43.0


From 0000a4c76fc223d4453554c5e8c41272ec7bfa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 06/52] fix: categorical couplings of multiplex networks with
 several aspects that are not fully interconnected

---
 pymnet/net.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 9cfe358..605354d 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1080,10 +1080,7 @@ class MultiplexNetwork(MultilayerNetwork):
                 else:
                     layer=supernode[1]
                 if layer in self._nodeToLayers[supernode[0]]:
-                    if self.aspects==1:
-                        return len(self._nodeToLayers[supernode[0]])-1
-                    else:
-                        return len(filter(lambda x:x[aspect]==supernode[aspect],self._nodeToLayers[supernode[0]])) -1
+                    return len(list(self._iter_dim(supernode,aspect,direction=direction)))
                 else:
                     return 0
         elif coupling_type=="ordinal":
@@ -1129,8 +1126,9 @@ class MultiplexNetwork(MultilayerNetwork):
             elif supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]:
                 for layers in self._nodeToLayers[supernode[0]]:
                     if self.aspects>1:
-                        if layers!=supernode[1:]:
-                            yield (supernode[0],)+layers
+                        neighbor=(supernode[0],)+layers
+                        if layers!=supernode[1:] and neighbor[:aspect]+neighbor[aspect+1:]==supernode[:aspect]+supernode[aspect+1:]:
+                            yield neighbor
                     else:
                         if layers!=supernode[1]:
                             yield (supernode[0],layers)
-- 
2.43.0


From e3e5b1df65c69c907bdd9d76f528e3bffe8405aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 07/52] fix: ordinal couplings of multiplex networks that are
 not fully interconnected

---
 pymnet/net.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 605354d..afd1532 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1088,7 +1088,7 @@ class MultiplexNetwork(MultilayerNetwork):
             if self.fullyInterconnected:
                 return int(up in self.slices[aspect])+int(down in self.slices[aspect])
             else:
-                return int(supernode[:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])+int(supernode[:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
             if direction=="tot":
                 return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
@@ -1140,10 +1140,13 @@ class MultiplexNetwork(MultilayerNetwork):
                 if down in self.slices[aspect]:
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
             else:
-                if supernode[1:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(up,)+supernode[aspect+1:]
-                if supernode[1:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(down,)+supernode[aspect+1:]
+                layers=self._nodeToLayers.get(supernode[0],())
+                elementary=lambda nl:nl[1:] if self.aspects>1 else nl[1]
+                if elementary(supernode) in layers:
+                    if elementary(supernode[:aspect]+(up,)+supernode[aspect+1:]) in layers:
+                        yield supernode[:aspect]+(up,)+supernode[aspect+1:]
+                    if elementary(supernode[:aspect]+(down,)+supernode[aspect+1:]) in layers:
+                        yield supernode[:aspect]+(down,)+supernode[aspect+1:]
         elif isinstance(coupling_type,MultilayerNetwork):
             couplingnode=coupling_type[supernode[aspect]]
             if direction=="tot":
-- 
2.43.0


From dab27324581bd8195c277f19339fa2cddcf7f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 08/52] fix: intra-layer networks of a multiplex network use
 its noEdge value

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index afd1532..594889d 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -846,7 +846,7 @@ class MultiplexIntraNetDict(MutableMapping):
         pass
 
     def _add_empty_network(self,layer):
-        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed)
+        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed,noEdge=self._net.noEdge)
         net._set_parent(self._net)
         if not self._net.fullyInterconnected:
             if self._net.aspects==1:
-- 
2.43.0


From 539590d51cdfe9bc6a951957ebd6486266bc8c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 09/52] fix: undefined name in the link lookup of the flattened
 view

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 594889d..0a5cd04 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1332,7 +1332,7 @@ class FlatMultilayerNetworkView(MultilayerNetwork):
     def _get_link(self,link):
         """Overrides parents method.
         """
-        return self.mnet[tuple(itertools.chain(*zip(*a)))]
+        return self.mnet[tuple(itertools.chain(*zip(*link)))]
                 
     def _set_link(self,link,value):
         """Overrides parents method.
-- 
2.43.0


From bc12dee7f008ee2fef52001650f8c5b9b4d29db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 10/52] fix: raise NotImplementedError instead of calling
 NotImplemented in the flattened view

---
 pymnet/net.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 0a5cd04..70c1cfb 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1337,17 +1337,17 @@ class FlatMultilayerNetworkView(MultilayerNetwork):
     def _set_link(self,link,value):
         """Overrides parents method.
         """
-        raise NotImplemented("yet.")
+        raise NotImplementedError("yet.")
 
     def _get_degree(self,node, dims):
         """Overrides parents method.
         """
-        raise NotImplemented("yet.")
+        raise NotImplementedError("yet.")
 
     def _iter_neighbors(self,node,dims):
         """Overrides parents method.
         """
-        raise NotImplemented("yet.")
+        raise NotImplementedError("yet.")
 
 class ModularityMultilayerNetworkView(MultilayerNetwork):
     def __init__(self,mnet,gamma=1.0):
-- 
2.43.0


From d511d744c1f87efc70193cc6b2d2e54491533ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 11/52] fix: comparing networks that differ in full
 interconnectedness returns False instead of raising

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 70c1cfb..aa14bd5 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -176,7 +176,7 @@ class MultilayerNetwork(object):
         if not isinstance(other,MultilayerNetwork):
             return False
         
-        if not self.fullyInterconnected:
+        if not self.fullyInterconnected and not other.fullyInterconnected:
             if self._nodeToLayers!=other._nodeToLayers:
                 return False
         if type(self) is type(other) and self.directed == other.directed and self.directed==other.directed and self.aspects==other.aspects and self.fullyInterconnected == other.fullyInterconnected and self.noEdge == other.noEdge and self.slices==other.slices and len(self.edges) ==len(other.edges):            
-- 
2.43.0


From 8de3ad3c4051846ba2899094b6f83594e776ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 12/52] fix: write all rows of the flattened matrix

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index aa14bd5..b567653 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -610,7 +610,7 @@ class MultilayerNetwork(object):
                     yield l
 
     def _write_flattened(self,output):
-        nodes=map(lambda x: tuple(reversed(x)),sorted(itertools.product(*map(lambda i:sorted(self.slices[i]),reversed(range(len(self.slices)))))))
+        nodes=list(map(lambda x: tuple(reversed(x)),sorted(itertools.product(*map(lambda i:sorted(self.slices[i]),reversed(range(len(self.slices))))))))
         for i in nodes:
             row=[str(self[i][j]) for j in nodes]
             output.write(" ".join(row)+"\n")
-- 
2.43.0


From 2344054cf79718d55a70265f145e8aaeab4e8d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 13/52] fix: net[i,:,s,r] restricts the visible links to layer
 r as documented

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index b567653..43d6fde 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -495,7 +495,7 @@ class MultilayerNetwork(object):
             layers=[]
             for i in range(d):
                 if item[2*i+1]!=COLON:
-                    layers.append(item[2*i])
+                    layers.append(item[2*i+1])
                 else:
                     colons+=1
                     layers.append(None)
-- 
2.43.0


From c377a387cf27ca0c6dcc475aa4e95cfff1f913f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 14/52] fix: copy multiplex networks that are coupled with a
 network

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 43d6fde..7b04051 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -940,7 +940,7 @@ class MultiplexNetwork(MultilayerNetwork):
             for coupling in couplings:
                 if isinstance(coupling,tuple):
                     assert len(coupling)!=0
-                    assert coupling[0] in coupling_types
+                    assert isinstance(coupling[0],MultilayerNetwork) or coupling[0] in coupling_types
                     if coupling[0] in ["categorical","ordinal"] and len(coupling)==1:
                         coupling=coupling+(1.0,)
                     self.couplings.append(coupling)
-- 
2.43.0


From 0938bda9d0461e92632fac2a8b29549094d0f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 15/52] fix: overlay network keeps the directedness and the
 noEdge value

---
 pymnet/transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 08dd713..f3c72fc 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -109,12 +109,16 @@ def overlay_network(net):
        A new instance of multiplex network which is produced.
     """
     assert net.aspects==1
-    newnet=netmodule.MultilayerNetwork()
+    newnet=netmodule.MultilayerNetwork(aspects=0,noEdge=net.noEdge,directed=net.directed)
     for layer in net.slices[1]:
         for node1 in net.slices[0]:
             for node2 in net.slices[0]:
                 if net.directed or node1>node2:
-                    newnet[node1,node2]=newnet[node1,node2]+net[node1,node2,layer,layer]
+                    weight=net[node1,node2,layer,layer]
+                    if newnet[node1,node2]==newnet.noEdge:
+                        newnet[node1,node2]=weight
+                    elif weight!=net.noEdge:
+                        newnet[node1,node2]=newnet[node1,node2]+weight
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0


From 11f9eed557a4860a62175cca50f79d1525c91ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 16/52] fix: aggregated weights do not include the noEdge value

---
 pymnet/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index f3c72fc..4c80274 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -81,7 +81,10 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
         for index in edgeIndices:
             newEdge.append(edge[index])
         if selfEdges or not newEdge[0::2]==newEdge[1::2]:
-            newNet[tuple(newEdge)]=newNet[tuple(newEdge)]+edge[-1]
+            if newNet[tuple(newEdge)]==newNet.noEdge:
+                newNet[tuple(newEdge)]=edge[-1]
+            else:
+                newNet[tuple(newEdge)]=newNet[tuple(newEdge)]+edge[-1]
 
     #Add node-layer tuples (if not node-aligned)
     if not net.fullyInterconnected and newNet.aspects>0:
-- 
2.43.0


From 4bea962db23478a1784a456faaea36f83a28d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 17/52] fix: relabel does not modify the layer map list it is
 given

---
 pymnet/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 4c80274..99fd6ea 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -294,6 +294,7 @@ def relabel(net,nodeNames=None,layerNames=None):
     if net.aspects==1:
         if isinstance(layerNames,dict):
             layerNames=[layerNames]
+    layerNames=list(layerNames)
 
     for aspect in range(net.aspects):
         if len(layerNames)<aspect+1:
-- 
2.43.0


From 2f0bbae9dd3dd2a96165fe1400dd8868bb263bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 18/52] fix: undefined name when thresholding networks that are
 not fully interconnected

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 99fd6ea..cb371b9 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -460,7 +460,7 @@ def threshold(net,threshold,method=">=",ignoreCouplingEdges=False):
             newNet.add_layer(layer,aspect=aspect+1) 
     if not net.fullyInterconnected:
         for nodelayer in net.iter_node_layers():
-            layer=lnodelayer[1:]
+            layer=nodelayer[1:]
             if net.aspects==1:
                 layer=layer[0]
             newNet.add_node(nodelayer[0],layer=layer)
-- 
2.43.0


From 11f5129e60dc8741e73dfd9319035afc71a64b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 19/52] fix: subnet_iter goes through the removable edges of
 each subnetwork only

---
 pymnet/transforms.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index cb371b9..33de0f3 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -557,14 +557,11 @@ def subnet_iter(net,remove_elayers=[],remove_edges=True):
     for nl in itertools.product(*combinations_args):
         subnet_with_edges=subnet(net,*nl)
         if remove_edges: #Going through all edge combinations
+            #For multilayer networks we go through all edges
+            edges=list(subnet_with_edges.edges)
             if isinstance(net,netmodule.MultiplexNetwork):
                 #For multiplex networks we do not want to go through coupling edges
-                couplings=subnet_with_edges.couplings
-                edges=list(subnet_with_edges.edges)
-                subnet_with_edges.couplings=couplings
-            else:
-                #For multilayer networks we go through all edges
-                edges=net.edges
+                edges=[edge for edge in edges if edge[2:-1:2]==edge[3:-1:2]]
             for newnet_edges in all_combinations(edges):
                 newnet=subnet(subnet_with_edges,*nl,nolinks=True)
                 for edge in newnet_edges:
-- 
2.43.0


From cbf3710b6dde54f2e7c832adb98b40d345f11a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 20/52] fix: density of networks that are not fully
 interconnected or have a single node

---
 pymnet/diagnostics.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index da79c68..5f38f85 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -49,11 +49,17 @@ def density(net):
         nl=len(net.get_layers(0))
         for a in range(net.aspects):
             nl=nl*len(net.get_layers(a+1))
-        if net.directed:
-            pedges=nl*(nl-1)
-        else:
-            pedges=(nl*(nl-1))/2
-            
+    else:
+        nl=len(list(net.iter_node_layers()))
+
+    if net.directed:
+        pedges=nl*(nl-1)
+    else:
+        pedges=(nl*(nl-1))/2
+
+    if pedges==0:
+        return 0
+
     return len(net.edges)/float(pedges)
 
 
-- 
2.43.0


From ecb48f8f0ce9ba96dc7891c98093116c52bd0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 21/52] fix: undefined names in overlap_degs

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 5f38f85..8484917 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -1,4 +1,5 @@
 from .net import MultilayerNetwork,MultiplexNetwork
+from .transforms import subnet,aggregate,threshold
 import heapq,itertools
 
 def degs(net,degstype="distribution"):
-- 
2.43.0


From 86e599ac323d977d73327179fa17d30b3c668669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 22/52] fix: overlap_degs removes links with the noEdge value
 of the network

---
 pymnet/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 8484917..5943954 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -129,7 +129,7 @@ def overlap_degs(net):
             if n_l > 1:
                 for e in thr_net.edges:
                     for layer in layer_comb:
-                        net0[e[0], e[1], layer] = 0
+                        net0[e[0], e[1], layer] = net0.noEdge
                         
     return ol_degs
     
-- 
2.43.0


From 02a03aa68c73bb266243d7a33df2ed12d9faec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 23/52] fix: read_ucinet rejects the formats it does not
 support

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 6d8343f..2e85e6e 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -248,7 +248,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
     else:
         net=MultiplexNetwork(couplings=[couplings],fullyInterconnected=fullyInterconnected)
 
-    if format=="fullmatrix" or "fullmatrix diagonal present":
+    if format=="fullmatrix" or format=="fullmatrix diagonal present":
         try:
             if labels_embedded: #first line is labels
                 #clabels=map(lambda x:x.lower(),ii.next().split())
-- 
2.43.0


From c072ca2f4bdd7f3756813d59ec3f1f918e49958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 24/52] fix: read_edge_files closes the files it opens

---
 pymnet/netio.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 2e85e6e..9af7ab4 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -51,11 +51,17 @@ def read_edge_files(edgeinput,layerinput=None,nodeinput=None,couplings='categori
     edgefile=open(edgeinput,'r') if isinstance(edgeinput,str) else edgeinput
     nodefile=open(nodeinput,'r') if isinstance(nodeinput,str) else nodeinput
 
-    for line in edgefile:
-        li,fi,ti,w=line.split()
-        li,fi,ti,w=int(li),int(fi),int(ti),float(w)
-        if fi!=ti or not ignoreSelfLink:
-            net[fi,ti,li]=w
+    try:
+        for line in edgefile:
+            li,fi,ti,w=line.split()
+            li,fi,ti,w=int(li),int(fi),int(ti),float(w)
+            if fi!=ti or not ignoreSelfLink:
+                net[fi,ti,li]=w
+    finally:
+        #close the files that were opened here
+        for thefile,theinput in [(layerfile,layerinput),(edgefile,edgeinput),(nodefile,nodeinput)]:
+            if isinstance(theinput,str):
+                thefile.close()
     return net
 
 
-- 
2.43.0


From 77cb32b052fef6f4a073e52d63e6467c1bcb424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 25/52] fix: restore networkx.Graph when the wrapped NetworkX
 function raises

---
 pymnet/nxwrap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 6aa6e8c..c2b3aff 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -193,10 +193,11 @@ def networkxdecorator(f):
         networkx.Graph=MonoplexGraphNetworkxView
 
         #Run the actual function
-        rval=f(*args, **kwargs)
-
-        #Revert the modifications to NetworkX
-        networkx.Graph=networkx_Graph_original
+        try:
+            rval=f(*args, **kwargs)
+        finally:
+            #Revert the modifications to NetworkX
+            networkx.Graph=networkx_Graph_original
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
-- 
2.43.0


From a49556f8da0cf5484b8040bcd03c179c4637a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 26/52] fix: orbit_counts_all does not remove the edges of the
 network it is given

---
 pymnet/graphlets/graphlet_measures.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 1e81268..aea9955 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -80,11 +80,6 @@ def orbit_counts_all(net, n, nets, invs, auts, orbit_list, allowed_aspects='all'
                 else:
                     orbits[node, (i, j, auts[i, j, node])] += 1
                     
-        for layer in layers:
-            nls = list(net[node0,:,layer])
-            for node1 in nls:
-                net[node0, node1[0], layer] = 0 #remove edges
-    
     return orbits
 
 def orbit_numbers(n, nets, auts):
-- 
2.43.0


From 0239e597a617dd47997a6dd8451b613b9f48ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 27/52] fix: GCM does not add a dummy row to the data frame it
 is given

---
 pymnet/graphlets/graphlet_measures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index aea9955..07d3fda 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -212,6 +212,7 @@ def GCM(orbits):
     # add dummy vector
     n_rows = orbits.shape[0]
     n_cols = orbits.shape[1]
+    orbits = orbits.copy()
     orbits.loc[n_rows] = [1] * n_cols
     
     corr, p = spearmanr(orbits, axis=0)
-- 
2.43.0


From bf244bed5a54e5db2e754ba6e37aaf5ca5280b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 28/52] fix: raise NotImplementedError instead of calling
 NotImplemented in abstract methods

---
 pymnet/isomorphisms/isomcore.py | 16 ++++++++--------
 pymnet/visuals/drawnet.py       |  6 +++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 90ab0ba..5d103c7 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -192,30 +192,30 @@ class AuxiliaryGraphBuilder(object):
 
     ## The following functions need to be overridden:
     def build_init(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def finalize(self):
-        raise NotImplemented()        
+        raise NotImplementedError()        
 
     def add_node(self,name,color):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def add_link(self,node1,node2):
-        raise NotImplemented()
+        raise NotImplementedError()
     ##
 
     ## The following can be overridden if possible
     def compare_structure(self,other):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def complete_invariant_structure(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def _automorphism_generators(self):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def _isomorphism_mapping(self,other):
-        raise NotImplemented()
+        raise NotImplementedError()
 
 
     ##
diff --git a/pymnet/visuals/drawnet.py b/pymnet/visuals/drawnet.py
index f47a099..cb6c3a5 100644
--- a/pymnet/visuals/drawnet.py
+++ b/pymnet/visuals/drawnet.py
@@ -49,7 +49,7 @@ class NetFigure(object):
 
     def draw(self,**kwargs):
         #Override this method
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def register_layer(self,layer):
         self.layers.insert(0,layer) #First to top
@@ -70,7 +70,7 @@ class Node(object):
 
     def draw(self):
         #Override this method
-        raise NotImplemented()
+        raise NotImplementedError()
 
 
 class Layer(object):
@@ -88,7 +88,7 @@ class Layer(object):
 
     def draw(self):
         #Override this method
-        raise NotImplemented()
+        raise NotImplementedError()
 
 
 class Edge(object):
-- 
2.43.0


From 0ccb45a98dd2b0feba4f9fa4ac4b93bbd84bb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 29/52] fix: undefined name xrange in Python 3 in the graphlet
 equations

---
 pymnet/graphlets/graphlets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/graphlets.py b/pymnet/graphlets/graphlets.py
index 2484f02..a69694a 100644
--- a/pymnet/graphlets/graphlets.py
+++ b/pymnet/graphlets/graphlets.py
@@ -688,7 +688,7 @@ def partitions_with_remainder(s, r): #Gareth Rees https://stackoverflow.com/ques
     [((0, 1, 2),), ((1, 2), (0,)), ((0, 2), (1,)), ((0, 1), (2,))]
     """
     s = set(s)
-    for n in xrange(len(s), -1, -r): # n is size of remainder.
+    for n in range(len(s), -1, -r): # n is size of remainder.
         if n == 0:
             for p in partitions(s, r):
                 yield p
-- 
2.43.0


From 53079bd22591cf91616597723e107eff53921cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 30/52] fix: normalize_coordinates scales the coordinates to
 the given box

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 14879a8..352999d 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -85,7 +85,7 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     #for node, (x, y) in coords.iteritems():
     for node in coords:
         x,y=coords[node]
-        newcoords[node]=((x-minx)/difx, (y-miny)/dify )
+        newcoords[node]=(boxSize[0]*(x-minx)/difx if difx>0 else 0.0, boxSize[1]*(y-miny)/dify if dify>0 else 0.0)
     return newcoords 
 
 
-- 
2.43.0


From 52bde76dd116073d708e4732d160e8725ed97e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 31/52] fix: get_layout passes its options to the multilayer
 layout algorithm

---
 pymnet/visuals/layouts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 352999d..2cc39ec 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -35,7 +35,7 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             for node in net:
                 ncoords[node]=(random.random(),random.random())
         elif layout=="fr":
-            ncoords=get_fruchterman_reingold_multilayer_layout(net)
+            ncoords=get_fruchterman_reingold_multilayer_layout(net,alignedNodes=True,**kwargs)
         else:
             raise Exception("Invalid layout: "+layout)
     else:
@@ -43,7 +43,7 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             for nl in net.iter_node_layers():
                 nlcoords[nl]=(random.random(),random.random())
         elif layout=="fr":
-            nlcoords=get_fruchterman_reingold_multilayer_layout(net)
+            nlcoords=get_fruchterman_reingold_multilayer_layout(net,alignedNodes=False,**kwargs)
         else:
             raise Exception("Invalid layout: "+layout)
     return ncoords,nlcoords         
@@ -142,7 +142,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
     assert net.aspects>=1, "No monoplex networks"
 
     #If the network is fully interconnected, we just create network with one layer
-    if net.fullyInterconnected:
+    if net.fullyInterconnected and alignedNodes:
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-- 
2.43.0


From d9d193b29a97ea752c70c280a52466ea13a7d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 32/52] fix: colormap property modifier with current versions
 of Matplotlib

---
 pymnet/visuals/drawassigners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 55f1180..d89b941 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -6,6 +6,7 @@ import math
 #Some assigner features use matplotlib. These features are only available if matplotlib can be loaded
 try:
     import matplotlib
+    import matplotlib.cm
     matplotlib_loaded=True
 except ImportError:
     matplotlib_loaded=False
@@ -60,7 +61,7 @@ class PropertyAssigner(object):
                 item=item*self.propRule["scaleby"]
         if "colormap" in self.propRule:
             if matplotlib_loaded:
-                item=matplotlib.cm.get_cmap(self.propRule["colormap"])(item)
+                item=matplotlib.cm.ScalarMappable(cmap=self.propRule["colormap"]).get_cmap()(item)
             else:
                 raise ImportError("The colormap feature uses matplotlib, and matplotlib cannot be imported.")
         return item
-- 
2.43.0


From a1a75657d9cfc9a119c2294571ec02757ce314d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 33/52] fix: averages of local clustering coefficients in
 Python 3

---
 pymnet/cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 637bb55..d70c268 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -281,7 +281,7 @@ def cc_sequence(net,node):
 def cc_layers_avg(net,node):
     #how to handle undefined cc?
     nom,den=cc_sequence(net,node)
-    tot=map(lambda x,y:x/float(y),nom,den)
+    tot=list(map(lambda x,y:x/float(y),nom,den))
     return sum(tot)/float(len(tot))
 
 def cc_layers_wavg(net,node):
@@ -1117,7 +1117,7 @@ def sncc_aw_seplayers(net,supernode,w1=1./3.,w2=1./3.,w3=1./3.,undefined=None):
 
 def gcc_from_lcc(net,lcc):
     lcc_vector=map(lambda node:lcc(net,node,undefReturn=None),net)
-    lcc_fvector=filter(lambda x:x!=None,lcc_vector)
+    lcc_fvector=list(filter(lambda x:x!=None,lcc_vector))
     if len(lcc_fvector)>0:
         return sum(lcc_fvector)/len(lcc_fvector)
     else:
-- 
2.43.0


From 24d59e302d0c0471785200610fa4380e5cd850e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 34/52] fix: cc_cycle_vector_adj does not modify the couplings
 of its input network

---
 pymnet/cc.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index d70c268..214f503 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -630,13 +630,7 @@ def cc_cycle_vector_adj(net,node,layer):
     import numpy
     adj,nodes1=net.get_supra_adjacency_matrix()
 
-    temp=net.couplings[0]
-    net.couplings[0]=('categorical',0)
-    a,nodes2=net.get_supra_adjacency_matrix()
-    net.couplings[0]=temp
-
-    a_test,nodes3=net.get_supra_adjacency_matrix(includeCouplings=False)
-    assert (a==a_test).all()
+    a,nodes2=net.get_supra_adjacency_matrix(includeCouplings=False)
 
     assert nodes1==nodes2
 
-- 
2.43.0


From a87f41a6e7227d933367306b1cfdf8484d53d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 35/52] fix: avg_lcc_aw uses the aggregated network it is given

---
 pymnet/cc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 214f503..da85aa4 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -854,7 +854,7 @@ def avg_lcc_aw(net,w1=1./2.,w2=1./2.,w3=None,returnCVector=False,anet=None):
                 tc1,tc2,tc3=lcc_aw(net,node,layer,returnCVector=True,anet=anet)
                 c1,c2,c3=c1+tc1,c2+tc2,c3+tc3
             else:
-                c+=lcc_aw(net,node,layer,w1=w1,w2=w2,w3=w3)
+                c+=lcc_aw(net,node,layer,w1=w1,w2=w2,w3=w3,anet=anet)
                 
     if returnCVector:
         return c1/n,c2/n,c3/n
-- 
2.43.0


From fd9890ded8d06eaf7218105ddbe540dcfa896d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:00 +0000
Subject: [PATCH 36/52] fix: conf uses the given couplings when the degrees are
 given as a network

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index cc3a4a5..94cb874 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -242,7 +242,7 @@ def conf(degs,degstype="distribution",couplings=("categorical",1.0)):
             d[layer]=dd
             for node in degs.A[layer]:
                 dd[node]=degs.A[layer][node].deg()
-        return conf(d,degstype="nodes")
+        return conf(d,degstype="nodes",couplings=couplings)
     elif isinstance(degs,MultilayerNetwork):
         assert degs.aspects==0
         d={}
-- 
2.43.0


From 465e58c7a02dcb46de59c61d667f19b81dd0239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 37/52] fix: get_layers returns a copy of the layer set

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 7b04051..76f2722 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -551,7 +551,7 @@ class MultilayerNetwork(object):
     def get_layers(self,aspect=1):
         """Returns the set of (elementary) layers (in a given aspect).
         """
-        return self.slices[aspect]
+        return set(self.slices[aspect])
 
     def iter_nodes(self,layer=None):
         """Iterate over nodes in the network.
-- 
2.43.0


From bdfc23c1ba2175de213d4dc33b7badfcd0a95304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 38/52] fix: degree of a node without layers in a categorically
 coupled network that is not fully interconnected

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 76f2722..10b981b 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1079,7 +1079,7 @@ class MultiplexNetwork(MultilayerNetwork):
                     layer=supernode[1:]
                 else:
                     layer=supernode[1]
-                if layer in self._nodeToLayers[supernode[0]]:
+                if layer in self._nodeToLayers.get(supernode[0],()):
                     return len(list(self._iter_dim(supernode,aspect,direction=direction)))
                 else:
                     return 0
-- 
2.43.0


From 814352ec9da79cd6299a6a06f2808a8af35ae1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 39/52] fix: coupling networks of multiplex networks that are
 not fully interconnected

---
 pymnet/net.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 10b981b..5a28d0f 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1021,6 +1021,11 @@ class MultiplexNetwork(MultilayerNetwork):
             return layer in self.A
 
 
+    def _has_node_in_layer(self,supernode):
+        """Return true if the node is in the layer. Network must not be node-aligned.
+        """
+        return self._has_layer_with_tuple(supernode[1:]) and supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]
+
     def _get_link(self,link):
         """Overrides parents method.
         """
@@ -1090,7 +1095,9 @@ class MultiplexNetwork(MultilayerNetwork):
             else:
                 return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
-            if direction=="tot":
+            if not self.fullyInterconnected:
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
+            elif direction=="tot":
                 return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
             elif direction=="in":
                 return self.couplings[aspect-1][0][supernode[aspect]].deg_in()
@@ -1106,7 +1113,14 @@ class MultiplexNetwork(MultilayerNetwork):
         if coupling_type=="none":
             return 0
         if isinstance(coupling_type,MultilayerNetwork):
-            if direction=="tot":
+            if not self.fullyInterconnected:
+                s=0
+                if direction!="in" or not coupling_type.directed:
+                    s+=sum([coupling_type[node[aspect],n[aspect]] for n in self._iter_dim(node,aspect,direction="out")])
+                if direction!="out" and coupling_type.directed:
+                    s+=sum([coupling_type[n[aspect],node[aspect]] for n in self._iter_dim(node,aspect,direction="in")])
+                return s
+            elif direction=="tot":
                 return coupling_type[node[aspect]].str_total()
             elif direction=="in":
                 return coupling_type[node[aspect]].str_in()
@@ -1156,7 +1170,9 @@ class MultiplexNetwork(MultilayerNetwork):
             elif direction=="out":
                 layers=couplingnode.iter_out()
             for n in layers:
-                yield supernode[:aspect]+(n,)+supernode[aspect+1:]
+                neighbor=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                if self.fullyInterconnected or (self._has_node_in_layer(supernode) and self._has_node_in_layer(neighbor)):
+                    yield neighbor
         elif coupling_type=="none":
             pass
         else:
-- 
2.43.0


From fb3efdbbb51765f00c5d7725dcbb8c31992567b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 40/52] fix: isomorphism comparison of networks with different
 numbers of layers that are not mapped

---
 pymnet/isomorphisms/isomcore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 5d103c7..377a0dc 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -110,8 +110,8 @@ class AuxiliaryGraphBuilder(object):
                 self.add_link(nlid,auxid)
 
     def compare_labels(self,other):
-        assert self.auxcolormap==other.auxcolormap #this should be true if comparable
-        return self.colormap==other.colormap
+        #the colors of the aux nodes start after the colors of the nodes, so they can only differ if these differ
+        return self.colormap==other.colormap and self.auxcolormap==other.auxcolormap
 
 
     def compare(self,other):
-- 
2.43.0


From f96cf9d6b21fb02dd4f5795d1a34e1386a8b23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 41/52] fix: isomorphisms of networks without aspects

---
 pymnet/isomorphisms/isomcore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 377a0dc..0c3a10e 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -89,6 +89,8 @@ class AuxiliaryGraphBuilder(object):
         #edges between node-layers:
         for nl1 in self.net.iter_node_layers():
             for nl2 in self.net[nl1]:
+                if self.net.aspects==0: #neighbors in monoplex networks are not given as tuples
+                    nl2=(nl2,)
                 nl1id=self._get_node_id(nl1)
                 nl2id=self._get_node_id(nl2)
                 self.add_link(nl1id,nl2id)
-- 
2.43.0


From a20b15269c5d757bb40959c54aae6d9f6de61f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 42/52] fix: aggregated networks keep the layers of the
 remaining aspects

---
 pymnet/transforms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 33de0f3..77388e0 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -73,6 +73,12 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
     #Add nodes
     for node in net:
         newNet.add_node(node)
+
+    #Add the layers of the aspects that remain
+    remainingAspects=[a for a in range(1,net.aspects+1) if a not in aspects]
+    for newAspect,aspect in enumerate(remainingAspects,1):
+        for layer in net.slices[aspect]:
+            newNet.add_layer(layer,aspect=newAspect)
     
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
-- 
2.43.0


From 40a00ad6714e25f0a4a6818a25cc886dcc2336a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 43/52] fix: subnet ignores names that are not in the network
 in all network types

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 77388e0..c3d3181 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -172,7 +172,7 @@ def subnet(net,nodes,*layers,**kwargs):
         if elayers==None:
             nodelayers.append(set(net.get_layers(a)))
         else:
-            nodelayers.append(set(elayers))
+            nodelayers.append(set(elayer for elayer in elayers if elayer in net.slices[a]))
 
     if newNet==None:
         if isinstance(net,netmodule.MultiplexNetwork):
-- 
2.43.0


From a85d5e3d94a79fb0bcee894b0d32be9f20cf370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:47 +0000
Subject: [PATCH 44/52] fix: MultilayerNode.layers is hidden by an instance
 attribute and can not be called

---
 pymnet/net.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 5a28d0f..49349d0 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -667,7 +667,7 @@ class MultilayerNode(object):
         """
         self.node=node
         self.mnet=mnet
-        self.layers=layers
+        self._layers=layers
 
     def __getitem__(self,item):
         """
@@ -691,7 +691,7 @@ class MultilayerNode(object):
         """
         assert len(layers)==0 or len(layers)==(self.mnet.aspects+1)
         if layers==():
-            layers=self.layers
+            layers=self._layers
         return self.mnet._get_degree(self.node,layers)
 
     def deg_total(self,*layers):
@@ -699,7 +699,7 @@ class MultilayerNode(object):
         """
         assert len(layers)==0 or len(layers)==(self.mnet.aspects+1)
         if layers==():
-            layers=self.layers
+            layers=self._layers
         return self.mnet._get_degree_total(self.node,layers)
 
     def deg_in(self,*layers):
@@ -707,7 +707,7 @@ class MultilayerNode(object):
         """
         assert len(layers)==0 or len(layers)==(self.mnet.aspects+1)
         if layers==():
-            layers=self.layers
+            layers=self._layers
         return self.mnet._get_degree_in(self.node,layers)
 
     def deg_out(self,*layers):
@@ -715,7 +715,7 @@ class MultilayerNode(object):
         """
         assert len(layers)==0 or len(layers)==(self.mnet.aspects+1)
         if layers==():
-            layers=self.layers
+            layers=self._layers
         return self.mnet._get_degree_out(self.node,layers)
 
     def str(self,*layers):
@@ -723,7 +723,7 @@ class MultilayerNode(object):
         """
         assert len(layers)==0 or len(layers)==(self.mnet.aspects+1)
         if layers==():
-            layers=self.layers
+            layers=self._layers
         return self.mnet._get_strength(self.node,layers)
 
     def str_total(self,*layers):
@@ -731,7 +731,7 @@ class MultilayerNode(object):
         """
         assert len(layers)==0 or len(layers)==(self.mnet.aspects+1)
         if layers==():
-            layers=self.layers
+            layers=self._layers
         return self.mnet._get_strength_total(self.node,layers)
 
     def str_in(self,*layers):
@@ -739,7 +739,7 @@ class MultilayerNode(object):
         """
         assert len(layers)==0 or len(layers)==(self.mnet.aspects+1)
         if layers==():
-            layers=self.layers
+            layers=self._layers
         return self.mnet._get_strength_in(self.node,layers)
 
     def str_out(self,*layers):
@@ -747,7 +747,7 @@ class MultilayerNode(object):
         """
         assert len(layers)==0 or len(layers)==(self.mnet.aspects+1)
         if layers==():
-            layers=self.layers
+            layers=self._layers
         return self.mnet._get_strength_out(self.node,layers)
 
     def __iter__(self):
@@ -770,10 +770,10 @@ class MultilayerNode(object):
 
     def _iter_nodes(self,iterf):
         if self.mnet.aspects>0:
-            for node in iterf(self.node,self.layers):
+            for node in iterf(self.node,self._layers):
                 yield node #maybe should only return the indices that can change?
         else:
-            for node in iterf(self.node,self.layers):
+            for node in iterf(self.node,self._layers):
                 yield node[0]
 
 
-- 
2.43.0


From fedb9f9181120c9ce55ea09ffeffc4256190dfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:49 +0000
Subject: [PATCH 45/52] fix: overlap_degs takes links with weights other than 1
 for links of more or fewer layers

---
 pymnet/diagnostics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 5943954..a102678 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -118,6 +118,9 @@ def overlap_degs(net):
     layers = net.slices[1]
     
     net0 = subnet(net, nodes, layers)
+    for layer in layers:
+        for e in list(net0.A[layer].edges):
+            net0[e[0], e[1], layer] = 1 #the layers of a link are counted, not its weights
     
     for n_l in range(len(layers), 0, -1):
         for layer_comb in itertools.combinations(layers, n_l):
-- 
2.43.0


From 763f4fef3efa9b1c3d8d961611761148092d19bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 46/52] fix: full and full_multilayer lose the nodes and layers
 that get no links

---
 pymnet/models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 94cb874..f6454a7 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -417,20 +417,25 @@ def full(nodes,layers,couplings=('categorical',1.0)):
     if layers==None:
         n=MultilayerNetwork(aspects=0)
         for node1 in range(nodes):
+            n.add_node(node1)
             for node2 in range(nodes):
                 if node1!=node2:
                     n[node1,node2]=1
     elif not hasattr(layers,'__iter__'): #is not sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in range(layers):
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
     else: #it's a sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in layers:
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
@@ -459,7 +464,10 @@ def full_multilayer(nodes,layers):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
     for layer1 in layers:
+        n.add_layer(layer1)
         for layer2 in layers:
             for node1 in range(nodes):
                 for node2 in range(nodes):
-- 
2.43.0


From bf1d4a345d5ffb186876444d78c73191b3ee35c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 47/52] fix: er_multilayer loses the nodes and layers that get
 no links

---
 pymnet/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index f6454a7..5061f4a 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -502,7 +502,10 @@ def er_multilayer(nodes,layers,p,randomWeights=False):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
     for layer1 in layers:
+        n.add_layer(layer1)
         for layer2 in layers:
             for node1 in range(nodes):
                 for node2 in range(node1+1,nodes):
-- 
2.43.0


From 3de722c2662f203ba1861e2dd5f3bf95af74c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 48/52] fix: Erdos-Renyi networks with probability 0 end in a
 division by zero

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index 5061f4a..20e9de8 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -184,7 +184,7 @@ def single_layer_er(net,nodes,p=None,edges=None):
                 for node2 in nodes:
                     if node1!=node2:
                         net[node1,node2]=1
-        else:
+        elif p>0:
             v,w=1,-1
             while (v < n):
                 r=random.random()
-- 
2.43.0


From 4c78cd06db37db1ae4f6c4ed4fb0ebf10bb4a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 49/52] fix: conf_overlaps loses the nodes and layers that get
 no links

---
 pymnet/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 20e9de8..5da28f8 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -565,6 +565,10 @@ def conf_overlaps(ol_degs, couplings=None):
     
     for layer_comb in ol_degs:
         degs = ol_degs[layer_comb]
+        for layer in layer_comb:
+            net.add_layer(layer)
+        for node in degs:
+            net.add_node(node)
         
         # mostly modified from single_layer_conf
         stubs=[]
-- 
2.43.0


From ab6407f60d2d27b72bec2bab7cb2252560180cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 50/52] fix: er_overlaps_match_aggregated loses the nodes and
 layers that get no links

---
 pymnet/models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 5da28f8..dcf9b3c 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -756,10 +756,14 @@ def er_overlaps_match_aggregated(n, edges, ps, couplings=None):
     '''
     
     net = MultiplexNetwork(couplings=couplings)
+    for node in range(n):
+        net.add_node(node)
     used_edges = set()
     
     e_left = {}
     for layer_comb in ps:
+        for layer in layer_comb:
+            net.add_layer(layer)
         if len(layer_comb) == 1:
             e_left[layer_comb[0]] = e_left.get(layer_comb[0], edges)
             continue
-- 
2.43.0


From 33dc79a0a0744e9d79cccf43de0ce8e8fbb290bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 51/52] fix: ba_total_degree loses the layers that get no links

---
 pymnet/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index dcf9b3c..ab38341 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -830,6 +830,8 @@ def ba_total_degree(n, ms, couplings=None):
     """
     
     net = MultiplexNetwork(couplings=couplings)
+    for layer in range(len(ms)):
+        net.add_layer(layer)
     links = []
     
     for i in range(n):
-- 
2.43.0


From 242aed939ad9e7c827d8c43e6b44ae33684eba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 52/52] fix: Zhang and Onnela clustering coefficients of a
 network without links

---
 pymnet/cc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index da85aa4..99b61c0 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -66,7 +66,6 @@ def cc_zhang(net,node,undefReturn=0.0):
     gcc_zhang : The global version of the clustering coefficient
 
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
         nom,den=0,0
@@ -76,6 +75,7 @@ def cc_zhang(net,node,undefReturn=0.0):
             den+=nij            
             if ij!=net.noEdge:
                 nom+=nij*ij
+        maxw=max(map(lambda x:x[2],net.edges))
         return nom/float(den)/float(maxw)
     else:
         return undefReturn
@@ -93,7 +93,6 @@ def gcc_zhang(net):
 
     """
 
-    maxw=max(map(lambda x:x[2],net.edges))
     nom,den=0,0
     for node in net:
         degree=net[node].deg()
@@ -105,6 +104,7 @@ def gcc_zhang(net):
                 if ij!=net.noEdge:
                     nom+=nij*ij
     if den!=0:
+        maxw=max(map(lambda x:x[2],net.edges))
         return nom/float(den)/float(maxw)
     else:
         return None
@@ -121,7 +121,6 @@ def cc_onnela(net,node,undefReturn=0.0):
     ----------
     J.-P. Onnela, J. Saramaki, J. Kertesz, and K. Kaski, Phys. Rev. E 71, 065103 (2005)
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
         nom=0
@@ -129,6 +128,7 @@ def cc_onnela(net,node,undefReturn=0.0):
             ij=net[i][j]
             if ij!=net.noEdge:
                 nom+=(net[node][i]*net[node][j]*ij)**(1./3.)
+        maxw=max(map(lambda x:x[2],net.edges))
         return 2*nom/float(degree*(degree-1))/float(maxw)
     else:
         return undefReturn
-- 
2.43.0

