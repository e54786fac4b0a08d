From b504247fc774d05cc13dd995791ae02451010f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 001/145] fix: Rotation about a non-unit axis raised
 AttributeError instead of normalising

---
 src/yapcad/xform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index d25a419..126e089 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -204,7 +204,7 @@ def Rotation(axis,angle,inverse=False):
     if m < geom.epsilon:
         raise ValueError('zero-length rotation axis not allowed')
     if not geom.close(m,1.0):
-        u = geom.geom.scale3(axis,1.0/m)
+        u = geom.scale3(axis,1.0/m)
 
     if inverse:
         angle *= -1.0
-- 
2.43.0


From f83e9f55fbfcfe0180b854d44456b177263dfa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 002/145] fix: Matrix(Matrix) shared its rows with the matrix
 it copied

---
 src/yapcad/xform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index 126e089..860f431 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -57,7 +57,7 @@ class Matrix:
         
         if isinstance(a,Matrix):
             for i in range(4):
-                self.setrow(i,a.getrow(i))
+                self.setrow(i,list(a.getrow(i)))
                 
         elif isinstance(a,(tuple,list)):
             if len(a) == 4:
-- 
2.43.0


From bab34ce7cb09f21d80fe51837cdad137e72ac657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 003/145] fix: scaling about a centre moved the centre
 (translations applied in the wrong order)

---
 src/yapcad/geom.py   | 4 ++--
 src/yapcad/geom3d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 807fc49..2f80147 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4137,9 +4137,9 @@ def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
         if vclose(cent,point(0,0,0)):
             mat = xform.Scale(sx,sy,sz)
         else:
-            mat = xform.Translation(cent,inverse=True)
+            mat = xform.Translation(cent)
             mat = mat.mul(xform.Scale(sx,sy,sz))
-            mat = mat.mul(xform.Translation(cent))
+            mat = mat.mul(xform.Translation(cent,inverse=True))
 
     if ispoint(x):
         return mat.mul(x)
diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5343f5c..aa2cc5b 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -702,9 +702,9 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     if vclose(cent, point(0,0,0)):
         mat = xform.Scale(sx, sy, sz)
     else:
-        mat = xform.Translation(cent, inverse=True)
+        mat = xform.Translation(cent)
         mat = mat.mul(xform.Scale(sx, sy, sz))
-        mat = mat.mul(xform.Translation(cent))
+        mat = mat.mul(xform.Translation(cent, inverse=True))
 
     s2 = deepcopy(s)
     # Transform vertices
-- 
2.43.0


From b101368dcb766a34f6838e004cda752d10dac88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 004/145] fix: mirroring an arc in its own plane replaced it by
 the complementary arc

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 2f80147..507ca08 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4272,7 +4272,7 @@ def mirror(x,plane):
         a2[0] = mul(x[0],flip)
         start = x[1][1]
         end  = x[1][2]
-        if not (start == 0 and end == 360):
+        if plane != 'xy' and not (start == 0 and end == 360):
             ## mirror the arc segment
             ps = point(cos(start*pi2/360.0),sin(start*pi2/360.0))
             pe = point(cos(end*pi2/360.0),sin(end*pi2/360.0))
-- 
2.43.0


From 7e543b37c001a0840b216fe718db5abfd7db3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 005/145] fix: arcs with start 0 or end 360 were sampled over a
 different sweep than their length

---
 src/yapcad/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 507ca08..751cbbd 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2413,7 +2413,7 @@ def samplearc(c,u,polar=False):
     w=c[1][3]
     if w == -2: # if arc is flagged as sample-reversed, flip u
         u=1.0-u
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
@@ -2464,7 +2464,7 @@ def unsamplearc(c,p):
     #     start = 0
     #     end = 360
         
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
-- 
2.43.0


From f475f4d9a875483ef28e55084f0c8c3915d690ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 006/145] fix: unsamplearc missed the end point of arcs ending
 at 360 degrees

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 751cbbd..c015bfc 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2479,7 +2479,7 @@ def unsamplearc(c,p):
     if abs(mag(x)-r) > epsilon:
         return False            # point is not on arc circle
     ang = (atan2(x[1],x[0]) % pi2)*360/pi2
-    if end > 360.0 and ang <= end-360.0:
+    if end >= 360.0 and start > 0 and ang <= end-360.0:
         ang = ang + 360.0
     u = (ang-start)/(end-start)
     if c[1][3] == -2: #samplereverse
-- 
2.43.0


From ee58e0c267a599b2387c849016956ed1c1168a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 007/145] fix: linePointXY could return a point off the line,
 and measured its parameter from the wrong end

---
 src/yapcad/geom.py | 95 +++++++---------------------------------------
 1 file changed, 13 insertions(+), 82 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index c015bfc..c9738e8 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2166,92 +2166,23 @@ def linePointXY(l,p,inside=True,distance=False,params=False):
     ## this is the fast case:
     if not inside and distance:
         return linedist
-    
-    ## find out where the intersection between the original line and a
-    ## line defined by the point and an orthogonal direction vector
-    ## is.  We do this by constructing two direction vectors
-    ## orthogonal to the orgiginal line scaled by the line distance,
-    ## and adding them to the point in question.  Assuming that the
-    ## line distance is not zero, only one of these constructed points
-    ## will fall on the line
-
-    ## compute unit direction vector for original line
-    dir = sub(b,a)
-    dir = scale3(dir,1.0/mag(dir))
-
-    ## compute two orthogonal direction vectors of length linedist
-    ordir1 = scale3(orthoXY(dir),linedist)
-    ordir2 = scale3(ordir1, -1.0)
-    
-    ## there are two possible intersection points
-    pi1 = add(p,ordir1)
-    pi2 = add(p,ordir2)
-
-    ## compute distances
-    d1pa = dist(a,pi1)
-    d1pb = dist(pi1,b)
-    d1 =  d1pa+d1pb # "triangle" with pi1
-
-    d2pa = dist(a,pi2)
-    d2pb = dist(pi2,b)
-    d2 =  d2pa+d2pb # "triangle" with pi2
-
-    ## the shortest "triangle" distance will signal the point that
-    ## is actually on the line, even if that point falls outside
-    ## the a,b line interval
-    
-    if params or not inside: # if we don't care about being inside the
-                             # line segment
-        if d1 <= d2:
-            if distance:
-                return d1
-            elif params:
-                return d1pb/abdist
-            else:
-                return pi1
-        else:
-            if distance:
-                return d2
-            elif params:
-                return d2pb/abdist
-            else:
-                return pi2
-        
-    
-    ## if the closest point on the line to point p lies between
-    ## the endpoints of the line, then either d1 or d2 will equal
-    ## abdist.  IF neither do, then we know that the closest point lies
-    ## outside the endpoints
-
-    if abs(d1-abdist) < epsilon:
-        if distance:
-            return linedist
-        else:
-            return pi1
 
-    if  abs(d2-abdist) < epsilon:
-        if distance:
-            return linedist
-        else:
-            return pi2
+    ## sampling parameter of the orthogonal projection of the point
+    ## onto the line
+    u = ((x0-x1)*(x2-x1) + (y0-y1)*(y2-y1))/(abdist*abdist)
 
-    ## closest point is outside the interval.  That means that the
-    ## distance from point p to whichever endpoint is smaller is the
-    ## closest distance
+    ## if we care about being inside the line segment, the closest
+    ## point is the closest end point when the projection falls outside
+    if inside:
+        u = min(max(u,0.0),1.0)
 
-    d3 = dist(a,p)
-    d4 = dist(b,p)
+    if params:
+        return u
 
-    if d3 < d4:
-        if distance:
-            return d3
-        else:
-            return a
-    else:
-        if distance:
-            return d4
-        else:
-            return b
+    q = sampleline(l,u)
+    if distance:
+        return dist(point(x0,y0,q[2]),q)
+    return q
 
 ## convenience function for fast distance calc
 def linePointXYDist(l,p,inside=True):
-- 
2.43.0


From b2ea4ad58237c4caeb39ac3e2e23bd66c389065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 008/145] fix: reverseGeomList lost polylines and did not
 reverse already reversed arcs

---
 src/yapcad/geom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index c9738e8..91d00f1 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3436,10 +3436,11 @@ def reverseGeomList(gl):
             rgl.insert(0,line(g[1],g[0]))
         elif isarc(g):
             c = deepcopy(g)
-            c[1][3] = -2 # set samplereverse flag
+            c[1][3] = -1 if c[1][3] == -2 else -2 # flip samplereverse flag
             rgl.insert(0,c)
         elif ispoly(g):
-            ply = deepcopy(g).reverse()
+            ply = deepcopy(g)
+            ply.reverse()
             rgl.insert(0,ply)
         elif isgeomlist(g):
             rgl.insert(0,reverseGeomList(g))
-- 
2.43.0


From 8da3bbf80d3cc49e434b9c40bfd7131fa877a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 009/145] fix: unsamplegeomlist raised NameError on every call

---
 src/yapcad/geom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 91d00f1..f50fc3e 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3391,7 +3391,7 @@ def unsamplegeomlist(gl,p):
     False if the point is more than epsilon away from any poly line
     segment
     """
-    if not isgeomlist(g):
+    if not isgeomlist(gl):
         raise ValueError('non geometry list passed to unsamplegeomlist')
 
     lengths,leng = __geomlistlength(gl)
@@ -3410,14 +3410,14 @@ def unsamplegeomlist(gl,p):
                 uu = unsample(gl[i],p)
                 if (not isinstance(uu,bool)
                     and uu >= 0.0 and uu < 1.0):
-                    return (uu*lengths[i]+dst)/length
+                    return (uu*lengths[i]+dst)/leng
                 else:
                     dst = dst+lengths[i]
         uu2 = unsample(gl[-1],p)
         
         if (not isinstance(uu2,bool) and
             uu2 >= 0.0 and uu2 <= 1.0):
-            return (uu2*lengths[-1]+dst)/length
+            return (uu2*lengths[-1]+dst)/leng
         else:
             return False
 
-- 
2.43.0


From 2085bb400db652788e0bd55cc18d33c65b9be2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 010/145] fix: samplegeomlist divided by zero when a list
 starts or ends with a point

---
 src/yapcad/geom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index f50fc3e..b731620 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3367,6 +3367,8 @@ def samplegeomlist(gl,u):
     if not isgeomlist(gl):
         raise ValueError('non-geomlist passed to samplegeomlist')
     
+    # points, and anything else without length, are ignored
+    gl = [ g for g in gl if length(g) > 0.0 ]
     lengths,leng = __geomlistlength(gl)
         
     dst = u * leng
-- 
2.43.0


From 698177cc208902241916c13b32ad72f707905b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 011/145] fix: segmentpoly failed on decreasing parameters

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index b731620..5fa986d 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3133,7 +3133,7 @@ def segmentpoly(a,u1,u2):
         if u1 < 0 or u2 < 0 or u1 > 1 or u2 > 1:
             raise ValueError('parameters fall outside 0,1 interval: {},{}'.format(u1,u2))
     if u2 < u1:
-        a = deepcopy(a).reverse()
+        a = list(reversed(a))
         u1 = 1.0-u1
         u2 = 1.0-u2
         
-- 
2.43.0


From d51eeb6e65ecefa3542c8be8f763d7ba8dd70b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 012/145] fix: segmenting a closed figure up to parameter 1
 returned an empty piece

---
 src/yapcad/geom.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 5fa986d..ed98e63 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3125,9 +3125,10 @@ def segmentpoly(a,u1,u2):
 
     if closed:
         u1%= 1.0
-        u2%= 1.0
+        if u2 < 0.0 or u2 > 1.0:
+            u2%= 1.0
         if u2 < u1:
-            return segmentpoly(a,u1,1.0-epsilon) + segmentpoly(a,0.0,u2)
+            return segmentpoly(a,u1,1.0) + segmentpoly(a,0.0,u2)
         
     else:
         if u1 < 0 or u2 < 0 or u1 > 1 or u2 > 1:
@@ -3455,13 +3456,14 @@ def reverseGeomList(gl):
 def segmentgeomlist(gl,u1,u2,closed=False,reverse=False):
     if closed:
         u1 %= 1.0
-        u2 %= 1.0
+        if u2 < 0.0 or u2 > 1.0:
+            u2 %= 1.0
         if u2 < u1:
             if reverse:
                 return segmentgeomlist(gl,0.0,u2,closed=False,reverse=True) +\
-                    segmentgeomlist(gl,u1,1.0-epsilon,closed=False,reverse=True)
+                    segmentgeomlist(gl,u1,1.0,closed=False,reverse=True)
             else:
-                return segmentgeomlist(gl,u1,1.0-epsilon,closed=False) \
+                return segmentgeomlist(gl,u1,1.0,closed=False) \
                     + segmentgeomlist(gl,0.0,u2,closed=False)
     if u1 < 0 or u1 > u2 or u2 < 0 or u2 > 1.0:
         raise ValueError('bad parameters {} and {} passed to segmentgeomlist'.format(u1,u2))
-- 
2.43.0


From a94af5a5f77b0e75aa5a10cc61202766fddab418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 013/145] fix: segmenting a circle from 0 to 1 returned a
 zero-length arc

---
 src/yapcad/geom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index ed98e63..4b69916 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2370,6 +2370,8 @@ def segmentarc(c,u1,u2):
     the same center and radius spanning the interval u1,u2
     """
 
+    if iscircle(c) and close(u2-u1,1.0): # the whole circle
+        return arc(c)
     pol1=samplearc(c,u1,polar=True)
     pol2=samplearc(c,u2,polar=True)
     sr= (c[1][3] == -2)
-- 
2.43.0


From e0c0fcb121d14a1c07919dbd142560141e20b969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 014/145] fix: bounding box of an arc missed its extreme points

---
 src/yapcad/geom.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 4b69916..bc41655 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2426,10 +2426,16 @@ def arcbbox(c):
         rr=point(c[1][0],c[1][0])
         return [sub(c[0],rr),add(c[0],rr)]
     else:
-        pp = []
-        for i in range(5):
-            u = i/4
-            pp.append(samplearc(c,u))
+        pp = [ samplearc(c,0.0), samplearc(c,1.0) ]
+        r = c[1][0]
+        start = c[1][1]%360.0
+        end = c[1][2]%360.0
+        if end < start:
+            end += 360.0
+        ## add the extreme points that fall inside the sweep
+        for i in range(1,8):
+            if start < i*90.0 < end:
+                pp.append(add(c[0],[(r,0,-r,0)[i%4],(0,r,0,-r)[i%4],0,1.0]))
         return polybbox(pp)
 
 def isinsidearcXY(c,p):
-- 
2.43.0


From 9739025ac40cf2297ce6ef922eb436bc48e0986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 015/145] fix: isinsidepolyXY misjudged points whose test ray
 passes a vertex, and polyline start points

---
 src/yapcad/geom.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index bc41655..e8b0b5d 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3039,28 +3039,31 @@ def isinsidepolyXY(a,p):
     if len(a) > 2 and dist(a[0],a[-1]) < epsilon:
         closed = True
 
-    ## if not closed, use "unsample" test to determine if ``p`` lies
-    ## on the polyline
+    ## if not closed, determine if ``p`` lies on one of the line segments
     if not closed:
-        if unsamplepoly(a,p) == False:
-            return False
-        else:
-            return True
+        for i in range(1,len(a)):
+            if dist(a[i-1],a[i]) < epsilon:
+                if dist(a[i],p) < epsilon:
+                    return True
+            elif isinsidelineXY([a[i-1],a[i]],p):
+                return True
+        return False
     ## poly is closed polygon
     bb = polybbox(a)
     ## do quick bounding box check
     if not isinsidebbox(bb,p):
         return False
-    ## inside the bounding box, do intersection testing
-    p2 = add([0.01,0.01,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
-    pp = intersectSimplePolyXY(l,a)
-    if pp == False:
-        return False
-    return len(pp) % 2 == 1
+    ## inside the bounding box, count the edges crossed by a ray in the
+    ## positive x direction.  Edges are half open, so that a ray passing
+    ## through a vertex is counted correctly.
+    inside = False
+    for i in range(1,len(a)):
+        p1 = a[i-1]
+        p2 = a[i]
+        if (p1[1] > p[1]) != (p2[1] > p[1]) and \
+           p[0] < p1[0] + (p[1]-p1[1])*(p2[0]-p1[0])/(p2[1]-p1[1]):
+            inside = not inside
+    return inside
 
 ## is it a polygon with all points in the same x-y plane
 def ispolygonXY(a):
-- 
2.43.0


From afb11cd7a9812c842efd05a5b7a11a438c3fa07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 016/145] fix: polylines of two segments never reported an
 intersection

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index e8b0b5d..9146658 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3229,7 +3229,7 @@ def intersectSimplePolyXY(g,a,inside=True,params=False):
         else:
             return lineArcIntersectXY(lines[0],g,inside,params)
     dst = 0.0
-    if len(lines) > 2:
+    if len(lines) > 1:
         for i in range(len(lines)):
             if LINE:
                 uu = lineLineIntersectXY(lines[i],g,params=True)
-- 
2.43.0


From 2841a3d38d90ef9ec22037c829ff13ee7a2a3567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 017/145] fix: unsamplearc misplaced the end point of arcs that
 cross zero degrees through rounding

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 9146658..82d431c 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2412,7 +2412,7 @@ def unsamplearc(c,p):
     if abs(mag(x)-r) > epsilon:
         return False            # point is not on arc circle
     ang = (atan2(x[1],x[0]) % pi2)*360/pi2
-    if end >= 360.0 and start > 0 and ang <= end-360.0:
+    if end >= 360.0 and start > 0 and ang <= end-360.0+epsilon:
         ang = ang + 360.0
     u = (ang-start)/(end-start)
     if c[1][3] == -2: #samplereverse
-- 
2.43.0


From 9bc398a5341b0e4f75c455683dff95a544451e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 018/145] fix: cutting a list at a joint to an arc could append
 a whole circle through rounding

---
 src/yapcad/geom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 82d431c..d6cf01f 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2374,6 +2374,8 @@ def segmentarc(c,u1,u2):
         return arc(c)
     pol1=samplearc(c,u1,polar=True)
     pol2=samplearc(c,u2,polar=True)
+    if close(u1,u2): # an empty piece, rounding must not make it a whole turn
+        pol2 = pol1
     sr= (c[1][3] == -2)
     if sr:
         return arc(pol1[0],pol1[1],pol2[2],pol1[2],samplereverse=True)
-- 
2.43.0


From 004a006f65a834360764b0923ddc4cee08245c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 019/145] fix: line-arc intersection dropped the one at the end
 point of the line

---
 src/yapcad/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index d6cf01f..ebe329a 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2737,7 +2737,7 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     # use computed parameters to calculate solutions, still in
     # circle-at-origin coordinates
     s = [ add(scale3(V,float(b0)),p1) ]
-    if b1:
+    if b1 is not False:
         s = s + [ add(scale3(V,float(b1)),p1) ]
 
     if not inside or circle or params:              # transform back into world
-- 
2.43.0


From 5ce71bfe517fb29e73240d1f705ee891b03f69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 020/145] fix: line-arc intersection raised for a line passing
 the circle by less than epsilon

---
 src/yapcad/geom.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index ebe329a..22fedbb 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2724,12 +2724,10 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     cc = mpP0*mpP0+mpP1*mpP1-mpr*mpr
     d = b*b-4*a*cc
     ## Check to see if we are within epsilon, scaled by the length of the line
-    if mpm.fabs(d) < mpm.sqrt(a)*2*mpepsilon: # one point of intersection
+    ## (d is negative for a line that passes the circle by less than epsilon)
+    if d < mpm.sqrt(a)*2*mpepsilon: # one point of intersection
         b0 = -b/(2*a)
         b1 = False
-    elif d < 0:
-        print("value of d: ",d,"  value of sqrt(a)*epsilon",sqrt(a)*epsilon)
-        raise ValueError("imaginary solution to circle line intersection -- shouldn't happen here")
     else: # two points of intersection
         b0 = (-b + mpm.sqrt(d))/(2*a)
         b1 = (-b - mpm.sqrt(d))/(2*a)
-- 
2.43.0


From c7127a55cf3bf393dc08dd3ed7eaeecb3ed647b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 021/145] fix: line-arc intersection reported points outside
 the line segment

---
 src/yapcad/geom.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 22fedbb..26b7db5 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2734,9 +2734,15 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
 
     # use computed parameters to calculate solutions, still in
     # circle-at-origin coordinates
-    s = [ add(scale3(V,float(b0)),p1) ]
+    bb = [ float(b0) ]
     if b1 is not False:
-        s = s + [ add(scale3(V,float(b1)),p1) ]
+        bb = bb + [ float(b1) ]
+    if inside and not params: # only those within the line segment
+        tol = epsilon/float(mpm.sqrt(a))
+        bb = [ bx for bx in bb if bx >= -tol and bx <= 1.0+tol ]
+        if len(bb) == 0:
+            return False
+    s = [ add(scale3(V,bx),p1) for bx in bb ]
 
     if not inside or circle or params:              # transform back into world
                                           # coordinates
-- 
2.43.0


From eb798f7c9a3cd9316f104f9c844b5de224f8d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 022/145] fix: isinsidegeomlistXY misjudged points whose test
 ray passes a joint of the outline

---
 src/yapcad/geom.py | 54 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 26b7db5..085bc27 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3567,16 +3567,50 @@ def isinsidegeomlistXY(a,p):
     bb = geomlistbbox(a)
     if not isinsidebbox(bb,p):
         return False
-    p2 = add([0.1,0.1,0,1],bb[1])
-    if vclose(p2,p): ## did we randomly pick an outside point near the
-                     ## test point? If so, test point is outside bb
-        return False
-    l = line(p,p2)
-
-    pp = intersectGeomListXY(l,a)
-    if pp == False:
-        return False
-    return len(pp) % 2 == 1
+    return _rayCrossingsXY(a,p) % 2 == 1
+
+## count how often a ray from p in the positive x direction crosses the
+## geometry.  Pieces are half open in y, so that a ray through a common
+## end point of two pieces is counted correctly.
+def _rayCrossingsXY(g,p):
+    count = 0
+    if ispoint(g):
+        return 0
+    elif isline(g) or ispoly(g):
+        for i in range(1,len(g)):
+            p1 = g[i-1]
+            p2 = g[i]
+            if (p1[1] > p[1]) != (p2[1] > p[1]) and \
+               p[0] < p1[0] + (p[1]-p1[1])*(p2[0]-p1[0])/(p2[1]-p1[1]):
+                count += 1
+    elif isarc(g):
+        c = g[0]
+        r = g[1][0]
+        if iscircle(g):
+            start = 0.0
+            end = 360.0
+        else:
+            start = g[1][1]%360.0
+            end = g[1][2]%360.0
+            if end < start:
+                end += 360.0
+        ## split the arc where it changes from rising to falling
+        angles = [start]+[ a for a in (90.0,270.0,450.0,630.0) if start < a < end ]+[end]
+        for i in range(1,len(angles)):
+            y1 = c[1]+r*sin(radians(angles[i-1]))
+            y2 = c[1]+r*sin(radians(angles[i]))
+            if (y1 > p[1]) != (y2 > p[1]):
+                dx = sqrt(max(r*r-(p[1]-c[1])*(p[1]-c[1]),0.0))
+                if cos(radians((angles[i-1]+angles[i])/2.0)) < 0.0:
+                    dx = -dx
+                if p[0] < c[0]+dx:
+                    count += 1
+    elif isgeomlist(g):
+        for x in g:
+            count += _rayCrossingsXY(x,p)
+    else:
+        raise ValueError('bad thing in geomlist passed to isinsidegeomlistXY: {}'.format(vstr(g)))
+    return count
 
 
 ## determint if the contents of a geometry list lie in the same x-y
-- 
2.43.0


From 2d0b7d688519a7d44b5935920a9dac160936cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 023/145] fix: isInsideConvexPolyXY tested triangles that do
 not cover the polygon

---
 src/yapcad/geom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 085bc27..7a70d64 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3802,11 +3802,13 @@ def isInsideTriangleXY(a,poly):
 ## ouside the polygon, assuming that all points lie in the x-y plane
 
 def _isInsideConvexPolyXY(a,poly): #no value checking version
+    if len(poly) > 3 and dist(poly[0],poly[-1]) < epsilon:
+        poly = poly[:-1]
     if len(poly) == 3:
         return _isInsideTriangleXY(a,poly)
     else:
         return _isInsideTriangleXY(a,poly[0:3]) or \
-               _isInsideConvexPolyXY(a,poly[1:len(poly)])
+               _isInsideConvexPolyXY(a,[poly[0]]+poly[2:])
 
 # value-safe wrapper for convex polygon inside testing function
 def isInsideConvexPolyXY(a,poly):
-- 
2.43.0


From 444c5add244581d8f876f6dc9dbedf7c111f0671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 024/145] fix: boxoverlap missed boxes whose corners are all
 outside the other box

---
 src/yapcad/octtree.py | 34 ++--------------------------------
 1 file changed, 2 insertions(+), 32 deletions(-)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 1b7d2d9..8ea33c9 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -209,40 +209,10 @@ def boxoverlap2(bbx1,bbx2,dim3=True):
 def boxoverlap(bbx1,bbx2,dim3=True):
 
     """determine if two bounding boxes overlap"""
-    minx = bbx1[0][0]
-    miny = bbx1[0][1]
-    minz = bbx1[0][2]
-    
-    len1 = bbx1[1][0] - bbx1[0][0] # length
-    wid1 = bbx1[1][1] - bbx1[0][1] # width
-    hei1 = bbx1[1][2] - bbx1[0][2] # height
-
-    p0=bbx1[0]
-    p1=add(p0,point(len1,0,0))
-    p2=add(p1,point(0,wid1,0))
-    p3=add(p0,point(0,wid1,0))
 
-    points = [p0,p1,p2,p3]
-    
-    if not dim3:
-        for p in points:
-            if isinsidebbox2D(bbx2,p):
-                return True
-        return False
+    # note: it is not enough to test the corners of one box, see above
+    return boxoverlap2(bbx1,bbx2,dim3)
 
-    p4=add(p0,point(0,0,hei1))
-    p5=add(p4,point(len1,0,0))
-    p6=bbx1[1]
-    p7=add(p4,point(0,wid1,0))
-
-    points += [p4,p5,p6,p7]
-    #print("boxoverlap points; ",vstr(points))
-    #print("boxoverlap bbx2: ",vstr(bbx2))
-    for p in points:
-        if isinsidebbox(bbx2,p):
-            return True
-    return False
-    
 def bbox2oct(bbx,refbox,center):
     """
     Utility function to take a bounding box representation and assign
-- 
2.43.0


From f668820def86b0d34f32e296b14e655fc868ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 025/145] fix: NTree.addElement appended to the caller's
 geometry list

---
 src/yapcad/octtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 8ea33c9..c4477a6 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -401,7 +401,7 @@ class NTree():
             ugeom = untag(geom)
             if isgeomlist(ugeom):
                 self.__bbox= bbox(ugeom)
-                self.__geom= geom
+                self.__geom= list(geom)
             else:
                 raise ValueError('geom must be valid geometry list, or None')
 
-- 
2.43.0


From 494d8fd4d91f5c7d55ddbba0d8d890c3f3f5b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 026/145] fix: querying an empty NTree raised instead of
 returning no elements

---
 src/yapcad/octtree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index c4477a6..8240ccd 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -415,6 +415,7 @@ class NTree():
                 self.updateCenter()
                 
         self.__tree = []
+        self.__elem_idx_bbox = []
         self.__update=True
 
     def __repr__(self):
-- 
2.43.0


From d775699c1403706d59b8f6c1b8f6b6e6065fdb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 027/145] fix: CollisionDetector dropped an interface registry
 that was still empty when given

---
 src/yapcad/collision/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index d6e709a..226b328 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -164,7 +164,8 @@ class CollisionDetector:
             penetration_threshold: Minimum penetration to count as collision (mm)
         """
         self.geometry_provider = geometry_provider
-        self.interface_registry = interface_registry or InterfaceRegistry()
+        # an empty registry is false, but interfaces may be registered in it later
+        self.interface_registry = interface_registry if interface_registry is not None else InterfaceRegistry()
         self.verbose = verbose
         self.min_collision_volume = min_collision_volume
         self.mesh_sample_points = mesh_sample_points
-- 
2.43.0


From 1cd535b0495347f699a169d87d33cda77189dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 028/145] fix: values of unknown or erroneous DSL type were
 rejected a second time by assignability

---
 src/yapcad/dsl/types.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/types.py b/src/yapcad/dsl/types.py
index 1b13200..a25cfc3 100644
--- a/src/yapcad/dsl/types.py
+++ b/src/yapcad/dsl/types.py
@@ -49,7 +49,7 @@ class Type(ABC):
 
     def is_assignable_from(self, other: "Type") -> bool:
         """Check if this type can accept a value of the other type."""
-        return self == other
+        return self == other or is_unresolved(other)
 
     def __str__(self) -> str:
         return self.name
@@ -69,7 +69,7 @@ class PrimitiveType(Type):
         return TypeTier.PRIMITIVE
 
     def is_assignable_from(self, other: "Type") -> bool:
-        if self == other:
+        if self == other or is_unresolved(other):
             return True
         # int can be promoted to float
         if self._name == "float" and isinstance(other, PrimitiveType) and other._name == "int":
@@ -97,7 +97,7 @@ class GeometricPrimitiveType(Type):
         return TypeTier.PRIMITIVE
 
     def is_assignable_from(self, other: "Type") -> bool:
-        if self == other:
+        if self == other or is_unresolved(other):
             return True
 
         if not isinstance(other, GeometricPrimitiveType):
@@ -150,7 +150,7 @@ class CompoundCurveType(Type):
         return TypeTier.COMPOUND_CURVE
 
     def is_assignable_from(self, other: "Type") -> bool:
-        if self == other:
+        if self == other or is_unresolved(other):
             return True
 
         if not isinstance(other, CompoundCurveType):
@@ -205,6 +205,8 @@ class ListType(Type):
         return TypeTier.GENERIC
 
     def is_assignable_from(self, other: "Type") -> bool:
+        if is_unresolved(other):
+            return True
         if not isinstance(other, ListType):
             return False
         return self.element_type.is_assignable_from(other.element_type)
@@ -447,6 +449,11 @@ def make_optional_type(inner_type: Type) -> OptionalTypeWrapper:
 # Type Compatibility Helpers
 # =============================================================================
 
+def is_unresolved(t: Type) -> bool:
+    """Check if type is unknown or erroneous (no further errors about it)."""
+    return isinstance(t, (UnknownType, ErrorType))
+
+
 def is_numeric(t: Type) -> bool:
     """Check if type is numeric (int or float)."""
     return isinstance(t, PrimitiveType) and t.name in ("int", "float")
-- 
2.43.0


From d7e9c4ce596125a60a0c1a13ca20e89982aeb93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:52 +0000
Subject: [PATCH 029/145] fix: the DSL checker reported a second error for
 operands whose type is unknown

---
 src/yapcad/dsl/checker.py | 50 +++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 2584f2f..5606c98 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -34,7 +34,7 @@ from .types import (
     POINT, POINT2D, POINT3D, VECTOR, VECTOR2D, VECTOR3D, TRANSFORM,
     SOLID, REGION2D, DICT,
     resolve_type_name, make_list_type, make_optional_type,
-    is_numeric, is_curve, is_geometry, common_type,
+    is_numeric, is_curve, is_geometry, is_unresolved, common_type,
 )
 from .symbols import (
     SymbolTable, Symbol, SymbolKind, FunctionSignature,
@@ -429,7 +429,7 @@ class TypeChecker:
         """Check a require statement."""
         cond_type = self._check_expression(stmt.condition)
 
-        if cond_type != BOOL and cond_type != ERROR:
+        if cond_type != BOOL and not is_unresolved(cond_type):
             self._error(
                 f"Require condition must be boolean, got '{cond_type}'",
                 stmt.condition.span,
@@ -438,7 +438,7 @@ class TypeChecker:
 
         if stmt.message is not None:
             msg_type = self._check_expression(stmt.message)
-            if msg_type != STRING and msg_type != ERROR:
+            if msg_type != STRING and not is_unresolved(msg_type):
                 self._error(
                     f"Require message must be string, got '{msg_type}'",
                     stmt.message.span,
@@ -506,7 +506,7 @@ class TypeChecker:
         """Check a block-level if statement."""
         cond_type = self._check_expression(stmt.condition)
 
-        if cond_type != BOOL and cond_type != ERROR:
+        if cond_type != BOOL and not is_unresolved(cond_type):
             self._error(
                 f"If condition must be boolean, got '{cond_type}'",
                 stmt.condition.span,
@@ -521,7 +521,7 @@ class TypeChecker:
         # Check elif branches
         for elif_branch in stmt.elif_branches:
             elif_cond_type = self._check_expression(elif_branch.condition)
-            if elif_cond_type != BOOL and elif_cond_type != ERROR:
+            if elif_cond_type != BOOL and not is_unresolved(elif_cond_type):
                 self._error(
                     f"Elif condition must be boolean, got '{elif_cond_type}'",
                     elif_branch.condition.span,
@@ -679,7 +679,7 @@ class TypeChecker:
                 # If no common type, use left element type
                 return left_type
 
-            if left_type != ERROR and right_type != ERROR:
+            if not is_unresolved(left_type) and not is_unresolved(right_type):
                 self._error(
                     f"Cannot apply '{op.name}' to '{left_type}' and '{right_type}'",
                     expr.span,
@@ -691,7 +691,7 @@ class TypeChecker:
         if op in (TokenType.LT, TokenType.GT, TokenType.LE, TokenType.GE):
             if is_numeric(left_type) and is_numeric(right_type):
                 return BOOL
-            if left_type != ERROR and right_type != ERROR:
+            if not is_unresolved(left_type) and not is_unresolved(right_type):
                 self._error(
                     f"Cannot compare '{left_type}' and '{right_type}' with '{op.name}'",
                     expr.span,
@@ -706,13 +706,13 @@ class TypeChecker:
 
         # Logical operators
         if op in (TokenType.AND, TokenType.OR):
-            if left_type != BOOL and left_type != ERROR:
+            if left_type != BOOL and not is_unresolved(left_type):
                 self._error(
                     f"Left operand of '{op.name}' must be boolean, got '{left_type}'",
                     expr.left.span,
                     "E252"
                 )
-            if right_type != BOOL and right_type != ERROR:
+            if right_type != BOOL and not is_unresolved(right_type):
                 self._error(
                     f"Right operand of '{op.name}' must be boolean, got '{right_type}'",
                     expr.right.span,
@@ -727,7 +727,7 @@ class TypeChecker:
         operand_type = self._check_expression(expr.operand)
 
         if expr.operator == TokenType.NOT:
-            if operand_type != BOOL and operand_type != ERROR:
+            if operand_type != BOOL and not is_unresolved(operand_type):
                 self._error(
                     f"Operand of '!' must be boolean, got '{operand_type}'",
                     expr.operand.span,
@@ -740,7 +740,7 @@ class TypeChecker:
                 return operand_type
             if isinstance(operand_type, GeometricPrimitiveType):
                 return operand_type  # Negating vectors/points
-            if operand_type != ERROR:
+            if not is_unresolved(operand_type):
                 self._error(
                     f"Cannot negate '{operand_type}'",
                     expr.operand.span,
@@ -794,7 +794,7 @@ class TypeChecker:
                     if i < len(func_type.param_types):
                         param_type = func_type.param_types[i]
                         if param_type != UNKNOWN and not param_type.is_assignable_from(arg_type):
-                            if arg_type != ERROR:
+                            if not is_unresolved(arg_type):
                                 self._error(
                                     f"Argument {i+1} expects '{param_type}', got '{arg_type}'",
                                     arg.span,
@@ -830,7 +830,7 @@ class TypeChecker:
             if i < len(sig.params):
                 param_name, param_type, _ = sig.params[i]
                 if param_type != UNKNOWN and not param_type.is_assignable_from(arg_type):
-                    if arg_type != ERROR:
+                    if not is_unresolved(arg_type):
                         self._error(
                             f"Argument '{param_name}' expects '{param_type}', "
                             f"got '{arg_type}'",
@@ -939,7 +939,7 @@ class TypeChecker:
         # Get method signature
         method_sig = get_method_signature(obj_type, expr.method)
         if method_sig is None:
-            if obj_type != ERROR:
+            if not is_unresolved(obj_type):
                 self._error(
                     f"Type '{obj_type}' has no method '{expr.method}'",
                     expr.span,
@@ -953,7 +953,7 @@ class TypeChecker:
             if i < len(method_sig.params):
                 param_name, param_type, _ = method_sig.params[i]
                 if not param_type.is_assignable_from(arg_type):
-                    if arg_type != ERROR:
+                    if not is_unresolved(arg_type):
                         self._error(
                             f"Method argument '{param_name}' expects '{param_type}', "
                             f"got '{arg_type}'",
@@ -973,7 +973,7 @@ class TypeChecker:
                 if expr.member in ("x", "y", "z"):
                     return FLOAT
 
-        if obj_type != ERROR:
+        if not is_unresolved(obj_type):
             self._error(
                 f"Type '{obj_type}' has no member '{expr.member}'",
                 expr.span,
@@ -986,7 +986,7 @@ class TypeChecker:
         obj_type = self._check_expression(expr.object)
         idx_type = self._check_expression(expr.index)
 
-        if idx_type != INT and idx_type != ERROR:
+        if idx_type != INT and not is_unresolved(idx_type):
             self._error(
                 f"Index must be integer, got '{idx_type}'",
                 expr.index.span,
@@ -996,7 +996,7 @@ class TypeChecker:
         if isinstance(obj_type, ListType):
             return obj_type.element_type
 
-        if obj_type != ERROR:
+        if not is_unresolved(obj_type):
             self._error(
                 f"Cannot index into '{obj_type}'",
                 expr.object.span,
@@ -1062,7 +1062,7 @@ class TypeChecker:
             # Check all conditions for this clause
             for condition in clause.conditions:
                 cond_type = self._check_expression(condition)
-                if cond_type != BOOL and cond_type != ERROR:
+                if cond_type != BOOL and not is_unresolved(cond_type):
                     self._error(
                         f"Comprehension condition must be boolean, got '{cond_type}'",
                         condition.span,
@@ -1081,13 +1081,13 @@ class TypeChecker:
         start_type = self._check_expression(expr.start)
         end_type = self._check_expression(expr.end)
 
-        if start_type != INT and start_type != ERROR:
+        if start_type != INT and not is_unresolved(start_type):
             self._error(
                 f"Range start must be integer, got '{start_type}'",
                 expr.start.span,
                 "E295"
             )
-        if end_type != INT and end_type != ERROR:
+        if end_type != INT and not is_unresolved(end_type):
             self._error(
                 f"Range end must be integer, got '{end_type}'",
                 expr.end.span,
@@ -1099,7 +1099,7 @@ class TypeChecker:
     def _check_conditional_expr(self, expr: ConditionalExpr) -> Type:
         """Check a ternary conditional expression (e.g., x if cond else y)."""
         cond_type = self._check_expression(expr.condition)
-        if cond_type != BOOL and cond_type != ERROR:
+        if cond_type != BOOL and not is_unresolved(cond_type):
             self._error(
                 f"Conditional expression requires boolean condition, got '{cond_type}'",
                 expr.condition.span,
@@ -1121,12 +1121,12 @@ class TypeChecker:
                 return true_type  # Return first branch type as fallback
             return ct if ct is not None else true_type
 
-        return true_type if true_type != ERROR else false_type
+        return true_type if not is_unresolved(true_type) else false_type
 
     def _check_if_expr(self, expr: IfExpr) -> Type:
         """Check an if expression."""
         cond_type = self._check_expression(expr.condition)
-        if cond_type != BOOL and cond_type != ERROR:
+        if cond_type != BOOL and not is_unresolved(cond_type):
             self._error(
                 f"If condition must be boolean, got '{cond_type}'",
                 expr.condition.span,
@@ -1144,7 +1144,7 @@ class TypeChecker:
             # Types should match
             if then_type and else_type:
                 ct = common_type(then_type, else_type)
-                if ct is None and then_type != ERROR and else_type != ERROR:
+                if ct is None and not is_unresolved(then_type) and not is_unresolved(else_type):
                     self._warning(
                         f"If branches have different types: '{then_type}' and '{else_type}'",
                         expr.span,
-- 
2.43.0


From 02fbc2cd20e7a6651fe532371b31cb487da3aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 030/145] fix: KinematicChain.validate hung on the circular
 dependencies it is meant to report

---
 src/yapcad/kinematics/chain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/kinematics/chain.py b/src/yapcad/kinematics/chain.py
index c711740..a7c26de 100644
--- a/src/yapcad/kinematics/chain.py
+++ b/src/yapcad/kinematics/chain.py
@@ -230,7 +230,7 @@ class KinematicChain:
         chain = []
         current = part_name
 
-        while current and current in self.parts:
+        while current and current in self.parts and current not in chain:
             chain.append(current)
             current = self.parts[current].parent
 
@@ -296,10 +296,10 @@ class KinematicChain:
                         f"'{part.parent_frame}' on '{part.parent}'"
                     )
 
-        # Check for cycles (simple check via chain length)
+        # Check for cycles (the last ancestor is attached to an earlier one)
         for name in self.parts:
             chain = self.get_chain_to_root(name)
-            if len(chain) > len(self.parts):
+            if self.parts[chain[-1]].parent in chain:
                 issues.append(f"Circular dependency detected involving '{name}'")
                 break
 
-- 
2.43.0


From 8a0d05106fe5c921efccd88950533a3a980f3c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 031/145] fix: redefining a frame left stale world poses of the
 parts attached to it

---
 src/yapcad/kinematics/chain.py | 1 +
 src/yapcad/kinematics/part.py  | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/yapcad/kinematics/chain.py b/src/yapcad/kinematics/chain.py
index a7c26de..e1afcac 100644
--- a/src/yapcad/kinematics/chain.py
+++ b/src/yapcad/kinematics/chain.py
@@ -115,6 +115,7 @@ class KinematicChain:
 
         # Add to parts dict and children list
         self.parts[part.name] = part
+        part._chain = self
         if part.parent not in self._children:
             self._children[part.parent] = []
         self._children[part.parent].append(part.name)
diff --git a/src/yapcad/kinematics/part.py b/src/yapcad/kinematics/part.py
index d761153..4333778 100644
--- a/src/yapcad/kinematics/part.py
+++ b/src/yapcad/kinematics/part.py
@@ -70,6 +70,7 @@ class KinematicPart:
         default=None, repr=False, compare=False
     )
     _transform_dirty: bool = field(default=True, repr=False, compare=False)
+    _chain: Optional[Any] = field(default=None, repr=False, compare=False)
 
     def __post_init__(self):
         """Ensure ORIGIN frame exists."""
@@ -99,6 +100,9 @@ class KinematicPart:
             description=description,
         )
         self.frames[name] = frame
+        if self._chain is not None:
+            # Children may be attached to the frame just redefined
+            self._chain._invalidate_subtree(self.name)
         return frame
 
     def get_frame(self, name: str) -> Optional[CoordinateFrame]:
-- 
2.43.0


From 63e7e2c0e70442b8e4b0a452d420f7d1c9d265bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 032/145] fix: the mate solver returned cached transforms of
 other parent poses, datums and offsets

---
 src/yapcad/assembly/solver.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index f5e4d59..af557c5 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -52,6 +52,7 @@ License: MIT
 
 from __future__ import annotations
 
+import copy
 import math
 import logging
 from dataclasses import dataclass, field
@@ -238,7 +239,7 @@ class MateConstraintSolver:
         self.tolerance = tolerance
         self.angle_tolerance = angle_tolerance
         self._use_cache = use_cache
-        self._cache: Dict[str, MateMateSolveResult] = {}
+        self._cache: Dict[str, Tuple[Any, MateMateSolveResult]] = {}
 
     def solve_mate(
         self,
@@ -256,10 +257,7 @@ class MateConstraintSolver:
         The returned transform positions the child part origin in the parent
         part's coordinate frame such that the mate constraint is satisfied.
         """
-        # Check cache
         cache_key = f"{mate.name}:{mate_axis}"
-        if self._use_cache and cache_key in self._cache:
-            return self._cache[cache_key]
 
         try:
             # Get datums from registry
@@ -277,6 +275,17 @@ class MateConstraintSolver:
                     error_message=f"Datum not found: {mate.part_b}.{mate.datum_b}"
                 )
 
+            # Check cache (valid only for what the transform depends on)
+            inputs = copy.deepcopy((
+                mate.mate_type, mate.offset, mate.angle, datum_a, datum_b,
+                None if parent_world_transform is None
+                else np.asarray(parent_world_transform).tolist(),
+            ))
+            if self._use_cache and cache_key in self._cache:
+                cached_inputs, cached = self._cache[cache_key]
+                if cached_inputs == inputs:
+                    return copy.deepcopy(cached)
+
             # Dispatch to constraint-specific solver
             transform = self._solve_constraint(mate.mate_type, datum_a, datum_b, mate)
 
@@ -300,7 +309,7 @@ class MateConstraintSolver:
 
             # Cache result
             if self._use_cache:
-                self._cache[cache_key] = result
+                self._cache[cache_key] = (inputs, copy.deepcopy(result))
 
             return result
 
-- 
2.43.0


From 7bcac77e8b53b946d1a6e035ee26b65ac2e546b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 033/145] fix: mate solver left directions up to 0.8 degrees
 apart unaligned

---
 src/yapcad/assembly/solver.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index af557c5..dcdc3c7 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -623,9 +623,11 @@ class MateConstraintSolver:
 
         # Check for parallel vectors
         dot = np.dot(v1, v2)
-        if dot > 0.9999:
+        axis = np.cross(v1, v2)
+        sin = np.linalg.norm(axis)
+        if sin < 1e-10 and dot > 0:
             return np.eye(3)  # Already aligned
-        if dot < -0.9999:
+        if sin < 1e-10:
             # Opposite directions - rotate 180 around any perpendicular axis
             if abs(v1[0]) < 0.9:
                 perp = np.cross(v1, [1, 0, 0])
@@ -635,11 +637,7 @@ class MateConstraintSolver:
             return self._rodrigues_rotation(perp, math.pi)
 
         # Rodrigues formula
-        axis = np.cross(v1, v2)
-        axis = axis / np.linalg.norm(axis)
-        angle = math.acos(np.clip(dot, -1.0, 1.0))
-
-        return self._rodrigues_rotation(axis, angle)
+        return self._rodrigues_rotation(axis / sin, math.atan2(sin, dot))
 
     def _rodrigues_rotation(self, axis: Any, angle: float) -> Any:
         """Compute rotation matrix from axis-angle using Rodrigues' formula.
-- 
2.43.0


From 54f06e89fec05161d63c557292562bc0b1abefa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 034/145] fix: DISTANCE mates ignored where the datum lies on
 the child

---
 src/yapcad/assembly/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index dcdc3c7..0806d63 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -546,11 +546,12 @@ class MateConstraintSolver:
     def _solve_distance(self, datum_a: Datum, datum_b: Datum, offset: float) -> Any:
         """Solve DISTANCE constraint (fixed offset along normal)."""
         origin_a = np.array(datum_a.origin[:3])
+        origin_b = np.array(datum_b.origin[:3])
         normal_a = self._get_datum_direction(datum_a)
 
-        # Position child at offset distance from parent along normal
+        # Position child datum at offset distance from parent along normal
         transform = np.eye(4)
-        transform[:3, 3] = origin_a + normal_a * offset
+        transform[:3, 3] = origin_a + normal_a * offset - origin_b
 
         return transform
 
-- 
2.43.0


From b5fe4f61d5818b3f8a9aa0781eff77c40168bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 035/145] fix: ANGLE mates left the directions at their
 original angle, and took radians for degrees

---
 src/yapcad/assembly/solver.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 0806d63..e0b0cd4 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -556,13 +556,20 @@ class MateConstraintSolver:
         return transform
 
     def _solve_angle(
-        self, datum_a: Datum, datum_b: Datum, angle_deg: float
+        self, datum_a: Datum, datum_b: Datum, angle: float
     ) -> Any:
-        """Solve ANGLE constraint (fixed angular relationship)."""
-        axis_a = self._get_datum_direction(datum_a)
+        """Solve ANGLE constraint (directions at the given angle in radians)."""
+        dir_a = self._get_datum_direction(datum_a)
+        dir_b = self._get_datum_direction(datum_b)
+
+        # Target direction: parent direction tilted about any perpendicular
+        if abs(dir_a[0]) < 0.9:
+            perp = np.cross(dir_a, [1, 0, 0])
+        else:
+            perp = np.cross(dir_a, [0, 1, 0])
+        target = self._rodrigues_rotation(perp, angle) @ dir_a
 
-        # Rotate around parent axis by specified angle
-        R = self._rodrigues_rotation(axis_a, math.radians(angle_deg))
+        R = self._rotation_between_vectors(dir_b, target)
 
         transform = np.eye(4)
         transform[:3, :3] = R
-- 
2.43.0


From bfc9c462d5accf68845718704cdde0f79497bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 036/145] fix: face mates returned the transform computed for
 an earlier parent pose or offset

---
 src/yapcad/assembly/face_mate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 10b5c71..e354409 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -164,9 +164,6 @@ class FaceToFaceMate:
             logger.error("NumPy required for transform computation")
             return None
 
-        if self._computed_transform is not None:
-            return self._computed_transform
-
         # Load datums from registry
         from .datum_registry import DatumRegistry
 
@@ -202,11 +199,13 @@ class FaceToFaceMate:
         else:
             raise ValueError(f"Unsupported constraint type: {self.constraint}")
 
+        # Keep the relative transform for validation
+        self._computed_transform = tf.copy()
+
         # Apply parent world transform if provided
         if parent_world_transform is not None:
             tf = parent_world_transform @ tf
 
-        self._computed_transform = tf
         return tf
 
     def validate(self,
-- 
2.43.0


From ab12a53c0c5e08f828acd00b113466d353d4d716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 037/145] fix: kinematic frames defined by a datum always fell
 back to the identity

---
 src/yapcad/kinematics/frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/kinematics/frame.py b/src/yapcad/kinematics/frame.py
index 11bee8b..5730e97 100644
--- a/src/yapcad/kinematics/frame.py
+++ b/src/yapcad/kinematics/frame.py
@@ -93,8 +93,9 @@ class CoordinateFrame:
         :returns: Transform if found, None otherwise
         """
         try:
-            from yapcad.assembly.datum_registry import DatumRegistry
-            from yapcad.assembly.face_mate import datum_to_transform_matrix
+            from yapcad.assembly.datum_registry import (
+                DatumRegistry, datum_to_transform_matrix,
+            )
 
             datum = DatumRegistry.get_datum(self.datum_source, self.datum_name)
             if datum is not None:
-- 
2.43.0


From d24fd8bd2925c3209387b8faaa88012f6a6b0665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 038/145] fix: face mates with an offset, and parallel ones,
 were validated as unsatisfied

---
 src/yapcad/assembly/face_mate.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index e354409..20e1591 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -249,8 +249,16 @@ class FaceToFaceMate:
 
         parent_origin = np.array(self._parent_datum_obj.origin[:3])
 
-        # Check distance
-        distance = float(np.linalg.norm(child_transformed - parent_origin))
+        # Check distance to where the mate puts the child origin: at the offset
+        # along the parent direction (PARALLEL leaves the origin free)
+        parent_direction = self._parent_datum_obj.normal or \
+                           self._parent_datum_obj.direction or [0, 0, 1]
+        parent_direction = np.array(parent_direction[:3])
+        target_origin = parent_origin + self.offset_distance * \
+                        parent_direction / np.linalg.norm(parent_direction)
+        distance = 0.0
+        if self.constraint != MateType.PARALLEL:
+            distance = float(np.linalg.norm(child_transformed - target_origin))
         distance_ok = distance <= tolerance_mm
 
         # Check angle (for PLANE/AXIS datums)
@@ -261,7 +269,9 @@ class FaceToFaceMate:
             parent_normal = np.array(self._parent_datum_obj.normal[:3])
             parent_normal = parent_normal / np.linalg.norm(parent_normal)
 
-            child_normal = np.array(self._child_datum_obj.normal[:3])
+            child_normal = self._child_datum_obj.normal or \
+                           self._child_datum_obj.direction or [0, 0, 1]
+            child_normal = np.array(child_normal[:3])
             child_normal_transformed = self._computed_transform[:3, :3] @ child_normal
             child_normal_transformed = child_normal_transformed / \
                                        np.linalg.norm(child_normal_transformed)
-- 
2.43.0


From f1a61bb59bcaadb78056e3dfbf7a9d46bd0fec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 039/145] fix: face mates and degree-of-freedom counts failed
 on the mate types FLUSH and ALIGNED, which did not exist

---
 src/yapcad/assembly/mate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index 9f9e8cb..0f1980f 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -82,6 +82,8 @@ class MateType(Enum):
     PARALLEL: Directions remain parallel (2 DOF removed)
     PERPENDICULAR: Directions maintain 90-degree angle (1 DOF removed)
     TANGENT: Surfaces remain tangent (1 DOF removed)
+    FLUSH: Faces in contact, normals opposed (3 DOF removed)
+    ALIGNED: Faces in contact, normals the same way (3 DOF removed)
     DISTANCE: Fixed offset between datums (1 DOF removed)
     ANGLE: Fixed angular relationship (1 DOF removed)
 
@@ -123,6 +125,8 @@ class MateType(Enum):
     TANGENT = "tangent"
     DISTANCE = "distance"
     ANGLE = "angle"
+    FLUSH = "flush"
+    ALIGNED = "aligned"
 
     # Standard joints (motion primitives)
     RIGID = "rigid"
@@ -505,6 +509,8 @@ class Mate:
             MateType.TANGENT: 5,     # 1 DOF removed
             MateType.DISTANCE: 5,    # 1 translational DOF removed
             MateType.ANGLE: 5,       # 1 rotational DOF removed
+            MateType.FLUSH: 3,       # Slide in plane + rotation about normal
+            MateType.ALIGNED: 3,
 
             # Coupled mates (these create relationships, not DOF reduction)
             MateType.GEAR: -1,       # Special: coupled motion
-- 
2.43.0


From a7c57d2e13da40b3b3b798d4ad29a4ecf3b06186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 040/145] fix: constraints on a face that does not exist were
 measured at the part origin and could pass

---
 src/yapcad/assembly/kinematic_integration.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 1be2163..c5ae9fe 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -936,6 +936,13 @@ class KinematicConstraint:
         self._face_pos_b = face_pos_b
         self._face_warnings = face_warnings
 
+        # A face that cannot be located leaves nothing to measure
+        if face_warnings:
+            return ConstraintEvaluationResult(
+                satisfied=False,
+                error_message="; ".join(face_warnings)
+            )
+
         # Dispatch to appropriate evaluation method
         if self.constraint_type == KinematicConstraintType.COINCIDENT:
             return self._evaluate_coincident(tf_a, tf_b)
-- 
2.43.0


From d5a1581dec63af89595a23f669087fe84806a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 041/145] fix: a zero reference axis counted as parallel to
 everything, an invalid second axis raised

---
 src/yapcad/assembly/kinematic_integration.py | 52 +++++++++++++++-----
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index c5ae9fe..b934213 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1049,17 +1049,24 @@ class KinematicConstraint:
 
         if tf_b is not None:
             origin_b = self._get_origin(tf_b)
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            axis_b = self._get_local_axis(self.axis_b)
+            if axis_b is not None:
+                axis_b = self._transform_vector(tf_b, axis_b)
         elif self.reference_axis is not None and self.reference_center is not None:
             origin_b = np.array(self.reference_center)
-            axis_b = np.array(self.reference_axis)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_axis)
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
                 error_message="CONCENTRIC requires frame_b or reference_axis+center"
             )
 
+        if axis_b is None:
+            return ConstraintEvaluationResult(
+                satisfied=False,
+                error_message="Invalid axis_b or reference_axis specification"
+            )
+
         # Check axes are parallel
         dot = abs(float(np.dot(axis_a, axis_b)))
         angle_error = math.degrees(math.acos(min(1.0, dot)))
@@ -1100,16 +1107,23 @@ class KinematicConstraint:
         axis_a = self._transform_vector(tf_a, local_axis_a)
 
         if tf_b is not None:
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            axis_b = self._get_local_axis(self.axis_b)
+            if axis_b is not None:
+                axis_b = self._transform_vector(tf_b, axis_b)
         elif self.reference_axis is not None:
-            axis_b = np.array(self.reference_axis)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_axis)
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
                 error_message="PARALLEL requires frame_b or reference_axis"
             )
 
+        if axis_b is None:
+            return ConstraintEvaluationResult(
+                satisfied=False,
+                error_message="Invalid axis_b or reference_axis specification"
+            )
+
         # Parallel means |dot| = 1 (same or opposite direction)
         dot = abs(float(np.dot(axis_a, axis_b)))
         angle_error = math.degrees(math.acos(min(1.0, dot)))
@@ -1140,16 +1154,23 @@ class KinematicConstraint:
         axis_a = self._transform_vector(tf_a, local_axis_a)
 
         if tf_b is not None:
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            axis_b = self._get_local_axis(self.axis_b)
+            if axis_b is not None:
+                axis_b = self._transform_vector(tf_b, axis_b)
         elif self.reference_axis is not None:
-            axis_b = np.array(self.reference_axis)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_axis)
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
                 error_message="PERPENDICULAR requires frame_b or reference_axis"
             )
 
+        if axis_b is None:
+            return ConstraintEvaluationResult(
+                satisfied=False,
+                error_message="Invalid axis_b or reference_axis specification"
+            )
+
         # Perpendicular means dot = 0
         dot = abs(float(np.dot(axis_a, axis_b)))
         angle_from_perpendicular = math.degrees(math.asin(min(1.0, dot)))
@@ -1330,17 +1351,24 @@ class KinematicConstraint:
 
         if tf_b is not None:
             origin_b = self._get_origin(tf_b)
-            axis_b = self._transform_vector(tf_b, self._get_local_axis(self.axis_b))
+            axis_b = self._get_local_axis(self.axis_b)
+            if axis_b is not None:
+                axis_b = self._transform_vector(tf_b, axis_b)
         elif self.reference_center is not None and self.reference_normal is not None:
             origin_b = np.array(self.reference_center)
-            axis_b = np.array(self.reference_normal)
-            axis_b = axis_b / np.linalg.norm(axis_b)
+            axis_b = self._get_local_axis(self.reference_normal)
         else:
             return ConstraintEvaluationResult(
                 satisfied=False,
                 error_message="BOLT_PATTERN requires frame_b or reference_center+normal"
             )
 
+        if axis_b is None:
+            return ConstraintEvaluationResult(
+                satisfied=False,
+                error_message="Invalid axis_b or reference_normal specification"
+            )
+
         # Check center alignment
         center_distance = float(np.linalg.norm(origin_b - origin_a))
         satisfied_center = center_distance <= self.tolerance_mm
-- 
2.43.0


From c43ddce8c9e0ff0b94f993ef51a8bcdf2cdb79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 042/145] fix: MIN_DISTANCE between boxes measured the smallest
 gap of any axis, not the distance

---
 src/yapcad/assembly/kinematic_integration.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index b934213..41a0de7 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1434,7 +1434,7 @@ class KinematicConstraint:
 
         # If bounding boxes are provided, calculate minimum separation
         # (bounding box method takes precedence over face positions for collision detection)
-        if self.bounds_a is not None and self.bounds_b is not None:
+        if self.bounds_a is not None and self.bounds_b is not None and tf_b is not None:
             # Transform bounding boxes to world coordinates
             actual_distance = self._calculate_bbox_separation(
                 tf_a, self.bounds_a, tf_b, self.bounds_b
@@ -1698,12 +1698,10 @@ class KinematicConstraint:
         dist_z = max(aabb_a[0][2] - aabb_b[1][2], aabb_b[0][2] - aabb_a[1][2])
 
         # If any distance is positive, boxes are separated
-        # Return the maximum distance (most separated axis)
-        # If all negative, return the minimum (most penetration)
+        # Return the distance between the closest points of the boxes
+        # If all negative, return the penetration on the least penetrated axis
         if dist_x > 0 or dist_y > 0 or dist_z > 0:
-            # Separated - return minimum positive distance
-            positive_dists = [d for d in [dist_x, dist_y, dist_z] if d > 0]
-            return min(positive_dists) if positive_dists else 0.0
+            return math.sqrt(sum(max(d, 0.0) ** 2 for d in (dist_x, dist_y, dist_z)))
         else:
             # Overlapping - return negative (penetration depth)
             return max(dist_x, dist_y, dist_z)  # Least penetration
-- 
2.43.0


From 6e8cc846e97f284807e587fab34fb99f4a883224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 043/145] fix: Z_STACK_CLEARANCE misplaced parts turned upside
 down and flattened parts on their side

---
 src/yapcad/assembly/kinematic_integration.py | 26 ++++----------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 41a0de7..1085025 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1504,27 +1504,11 @@ class KinematicConstraint:
         height_a = self.bounds_a[1][2] - self.bounds_a[0][2]  # max_z - min_z
         height_b = self.bounds_b[1][2] - self.bounds_b[0][2]
 
-        # Get local Z offsets to top/bottom surfaces
-        top_a_local = self.bounds_a[1][2]  # max_z in local coords
-        bottom_a_local = self.bounds_a[0][2]  # min_z in local coords
-        top_b_local = self.bounds_b[1][2]
-        bottom_b_local = self.bounds_b[0][2]
-
-        # Transform local top/bottom points to world Z
-        # For simplified check, assume Z-axis alignment (after rotations)
-        # Get world Z-axis direction for each part
-        local_z_a = self._get_local_axis("z")
-        local_z_b = self._get_local_axis("z")
-        world_z_a = self._transform_vector(tf_a, local_z_a)
-        world_z_b = self._transform_vector(tf_b, local_z_b)
-
-        # Calculate world Z positions of top/bottom faces
-        # For a part with local bounds, world top Z = origin_z + local_max_z (if Z aligned)
-        # If rotated, this is more complex - simplified version uses origin + projected height
-        top_a_world = origin_a[2] + top_a_local * abs(world_z_a[2])
-        bottom_a_world = origin_a[2] + bottom_a_local * abs(world_z_a[2])
-        top_b_world = origin_b[2] + top_b_local * abs(world_z_b[2])
-        bottom_b_world = origin_b[2] + bottom_b_local * abs(world_z_b[2])
+        # World Z extents of the boxes, whatever way the parts are turned
+        aabb_a = self._transform_aabb(tf_a, self.bounds_a)
+        aabb_b = self._transform_aabb(tf_b, self.bounds_b)
+        bottom_a_world, top_a_world = aabb_a[0][2], aabb_a[1][2]
+        bottom_b_world, top_b_world = aabb_b[0][2], aabb_b[1][2]
 
         # Determine overlap in Z
         # Parts overlap if top_a > bottom_b AND top_b > bottom_a
-- 
2.43.0


From c94fbf3d2f4808ce3892eb69815f84d457b05381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 044/145] fix: PARALLEL_TO passed for a zero reference axis

---
 src/yapcad/assembly/constraint.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/constraint.py b/src/yapcad/assembly/constraint.py
index 28cdd96..91b8515 100644
--- a/src/yapcad/assembly/constraint.py
+++ b/src/yapcad/assembly/constraint.py
@@ -543,7 +543,13 @@ class Constraint:
             )
 
         ref_axis = np.array(self.axis[:3])
-        ref_axis = ref_axis / np.linalg.norm(ref_axis)
+        ref_norm = np.linalg.norm(ref_axis)
+        if ref_norm < 1e-10:
+            return ConstraintResult(
+                passed=False,
+                error_message="PARALLEL_TO requires a non-zero axis"
+            )
+        ref_axis = ref_axis / ref_norm
 
         if hasattr(datum, 'direction') and datum.direction is not None:
             check_dir = np.array(datum.direction[:3])
@@ -591,7 +597,13 @@ class Constraint:
             )
 
         ref_axis = np.array(self.axis[:3])
-        ref_axis = ref_axis / np.linalg.norm(ref_axis)
+        ref_norm = np.linalg.norm(ref_axis)
+        if ref_norm < 1e-10:
+            return ConstraintResult(
+                passed=False,
+                error_message="PERPENDICULAR_TO requires a non-zero axis"
+            )
+        ref_axis = ref_axis / ref_norm
 
         if hasattr(datum, 'direction') and datum.direction is not None:
             check_dir = np.array(datum.direction[:3])
-- 
2.43.0


From 105c4ac08b389069be2b3f04f3896017fe68d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 045/145] fix: radial constraints failed at exactly their
 tolerance and reported no deviation within it

---
 src/yapcad/assembly/constraint.py | 35 +++++++------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/src/yapcad/assembly/constraint.py b/src/yapcad/assembly/constraint.py
index 91b8515..e13eeff 100644
--- a/src/yapcad/assembly/constraint.py
+++ b/src/yapcad/assembly/constraint.py
@@ -405,31 +405,16 @@ class Constraint:
 
         check_dir = check_dir / np.linalg.norm(check_dir)
 
-        # Check alignment
+        # Check alignment: angle from the expected direction
         dot = np.dot(radial_unit, check_dir)
-
-        if self.direction == "outward":
-            # Normal should point same direction as radial (dot > 0)
-            cos_tolerance = math.cos(math.radians(self.tolerance_deg))
-            satisfied = dot > cos_tolerance
-            expected = "outward (+radial)"
-        else:  # inward
-            # Normal should point opposite to radial (dot < 0)
-            cos_tolerance = math.cos(math.radians(self.tolerance_deg))
-            satisfied = dot < -cos_tolerance
-            expected = "inward (-radial)"
-
-        angle_error = math.degrees(math.acos(min(1.0, abs(dot))))
-        if not satisfied:
-            # Calculate actual angle from expected direction
-            if self.direction == "outward" and dot < 0:
-                angle_error = 180.0 - angle_error
-            elif self.direction == "inward" and dot > 0:
-                angle_error = 180.0 - angle_error
+        expected = f"{self.direction} ({'+' if self.direction == 'outward' else '-'}radial)"
+        aligned = dot if self.direction == "outward" else -dot
+        angle_error = math.degrees(math.acos(min(1.0, max(-1.0, aligned))))
+        satisfied = angle_error <= self.tolerance_deg
 
         return ConstraintResult(
             passed=satisfied,
-            error_value=angle_error if not satisfied else 0.0,
+            error_value=angle_error,
             error_message=f"Radial alignment: dot={dot:.3f}, expected {expected}, "
                          f"angle_error={angle_error:.2f}°",
             details={
@@ -851,9 +836,5 @@ def is_radial_from_center(point: Tuple[float, float, float],
 
     dot = np.dot(radial_unit, normal_unit)
 
-    cos_tolerance = math.cos(math.radians(tolerance_deg))
-
-    if direction == "outward":
-        return dot > cos_tolerance
-    else:  # inward
-        return dot < -cos_tolerance
+    aligned = dot if direction == "outward" else -dot
+    return math.degrees(math.acos(min(1.0, max(-1.0, aligned)))) <= tolerance_deg
-- 
2.43.0


From 5b2e35445a62130b7658e1aeb99855a980409d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 046/145] fix: numpy transforms were silently read as the
 identity, so assemblies validated unplaced parts

---
 src/yapcad/xform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index 860f431..eec44a2 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -55,6 +55,9 @@ class Matrix:
                   [0,0,0,1]]
         self.trans=False
         
+        if hasattr(a,'tolist'):  # numpy arrays
+            a = a.tolist()
+
         if isinstance(a,Matrix):
             for i in range(4):
                 self.setrow(i,list(a.getrow(i)))
@@ -89,6 +92,8 @@ class Matrix:
                 pass
             else:
                 raise ValueError('bad thing used in attempt to initialize matrix: ()'.format(a))
+        elif a is not None and a is not False:
+            raise ValueError('bad thing used in attempt to initialize matrix: {}'.format(a))
         self.trans=trans
                             
     def __repr__(self):
-- 
2.43.0


From 8916bec743705c36dd508c638a39c406b4ee8517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 047/145] fix: validate_and_raise raised AttributeError instead
 of AssemblyError

---
 src/yapcad/assembly/assembly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index b8cf829..5065f7c 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -159,7 +159,7 @@ class AssemblyValidationResult:
         ...     print(f"Found {len(result.failed_constraints)} failures")
         ...     for name in result.failed_constraints:
         ...         cr = result.constraint_results[name]
-        ...         print(f"  {name}: {cr.message}")
+        ...         print(f"  {name}: {cr.error_message}")
     """
 
     is_valid: bool
@@ -623,7 +623,7 @@ class Assembly:
             lines = [f"Assembly '{self.name}' validation failed:"]
             for name in result.failed_constraints:
                 cr = result.constraint_results[name]
-                lines.append(f"  - {name}: {cr.message}")
+                lines.append(f"  - {name}: {cr.error_message}")
 
             raise AssemblyError(
                 "\n".join(lines),
@@ -877,7 +877,7 @@ class Assembly:
                 lines.append(f"  STATUS: INVALID ({len(result.failed_constraints)} failures)")
                 for name in result.failed_constraints:
                     cr = result.constraint_results[name]
-                    lines.append(f"    FAILED: {name} - {cr.message}")
+                    lines.append(f"    FAILED: {name} - {cr.error_message}")
 
             if result.warnings:
                 lines.append(f"  WARNINGS: {len(result.warnings)}")
-- 
2.43.0


From d438aa92d3b095b8094218f77abae60eb7ed3ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:58 +0000
Subject: [PATCH 048/145] fix: a failed constraint's result was replaced by a
 passing one of the same name

---
 src/yapcad/assembly/assembly.py              | 5 ++++-
 src/yapcad/assembly/kinematic_integration.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index 5065f7c..b8c06ea 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -583,7 +583,10 @@ class Assembly:
 
             # Evaluate constraint
             result = constraint.evaluate(datum_world)
-            constraint_results[constraint.name] = result
+            # Constraints may share a name: a failure is never hidden by a
+            # later constraint of that name that passes
+            if not result.passed or constraint.name not in constraint_results:
+                constraint_results[constraint.name] = result
 
             # Track failures and warnings
             if not result.passed:
diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 1085025..5216c72 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -1867,7 +1867,10 @@ class AssemblyValidator:
 
         for constraint in self.constraints:
             result = constraint.evaluate(world_transforms)
-            results[constraint.name] = result
+            # Constraints may share a name: a failure is never hidden by a
+            # later constraint of that name that passes
+            if not result.satisfied or constraint.name not in results:
+                results[constraint.name] = result
 
             if result.satisfied:
                 passed_count += 1
-- 
2.43.0


From c199fc6627fb4b45f3c1538f1e754f825d9a8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:58 +0000
Subject: [PATCH 049/145] fix: a rejected kinematic chain file still moved the
 parts listed before the error

---
 src/yapcad/assembly/assembly.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index b8c06ea..b4c0aad 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -720,6 +720,7 @@ class Assembly:
                 assembly_name=self.name
             )
 
+        imported = {}
         for part_name, part_data in data["parts"].items():
             if part_name not in self.parts:
                 # Skip parts not in this assembly
@@ -754,8 +755,9 @@ class Assembly:
                     part_name=part_name
                 )
 
-            self.transforms[part_name] = transform
+            imported[part_name] = transform
 
+        self.transforms.update(imported)
         self._solved = True  # Mark as solved since transforms are imported
 
     def export_to_urdf(self, output_path: Union[str, Path]) -> None:
-- 
2.43.0


From 0b9389e5a676733feac3543fd734f2f011b9b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 050/145] fix: validation report listed failed warning
 constraints as passed

---
 src/yapcad/assembly/assembly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index b4c0aad..081bfb5 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -191,7 +191,9 @@ class AssemblyValidationResult:
 
         lines.append("")
         lines.append(f"Total constraints: {len(self.constraint_results)}")
-        lines.append(f"Passed: {len(self.constraint_results) - len(self.failed_constraints)}")
+        passed = [name for name, result in self.constraint_results.items()
+                  if result.passed]
+        lines.append(f"Passed: {len(passed)}")
         lines.append(f"Failed: {len(self.failed_constraints)}")
         lines.append(f"Warnings: {len(self.warnings)}")
         lines.append("")
@@ -217,8 +219,6 @@ class AssemblyValidationResult:
             lines.append("")
 
         # Passed constraints
-        passed = [name for name in self.constraint_results
-                  if name not in self.failed_constraints]
         if passed:
             lines.append("PASSED CONSTRAINTS:")
             lines.append("-" * 70)
-- 
2.43.0


From 70b0d4ae6d52f7919e1a2366f8dad96e7b152bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 051/145] fix: extra directions of a datum became points when
 transformed and then moved with the translation

---
 src/yapcad/assembly/datum.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/datum.py b/src/yapcad/assembly/datum.py
index 7a509db..ab53926 100644
--- a/src/yapcad/assembly/datum.py
+++ b/src/yapcad/assembly/datum.py
@@ -202,6 +202,13 @@ class Datum:
             self.origin[2] if len(self.origin) > 2 else 0.0
         )
 
+        # Directions carried in addition to those the type requires are
+        # direction vectors [x, y, z, 0] as well
+        for attr in ('direction', 'normal', 'x_axis', 'y_axis'):
+            v = getattr(self, attr)
+            if v is not None and len(v) >= 3:
+                setattr(self, attr, geom.vect(v[0], v[1], v[2], 0.0))
+
         # Validate based on datum type
         if self.datum_type == DatumType.AXIS:
             if self.direction is None:
@@ -335,7 +342,8 @@ class Datum:
             # Normalize direction vectors
             mag = geom.mag(result)
             if mag > geom.epsilon:
-                result = geom.scale3(result, 1.0 / mag)
+                result = geom.vect(result[0] / mag, result[1] / mag,
+                                   result[2] / mag, 0.0)
             return result
 
         # Create new datum with transformed geometry
-- 
2.43.0


From d863739b63fa0b8685927fe8c300f314607fe1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 052/145] fix: DatumRegistry.register_part raised
 AttributeError for every part with datums

---
 src/yapcad/assembly/datum_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 1707267..d5693aa 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -219,7 +219,7 @@ class DatumRegistry:
         """
         instance = cls._get_instance()
 
-        datums = {d.name: d for d in part.datums}
+        datums = {d.name: d for d in part.datums.values()}
         cls.register_source(
             source_id=part.name,
             datums=datums,
-- 
2.43.0


From e03bc46a50aaba8dc99aa71797c63f8527f87959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 053/145] fix: the frame of a FRAME datum with long or skew
 axes was not a rigid motion

---
 src/yapcad/assembly/datum_registry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index d5693aa..381672d 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -507,8 +507,10 @@ def datum_to_transform_matrix(datum: Datum) -> Optional[Any]:
         # Full frame with explicit axes
         x_axis = np.array(datum.x_axis[:3]) if datum.x_axis else np.array([1, 0, 0])
         y_axis = np.array(datum.y_axis[:3]) if datum.y_axis else np.array([0, 1, 0])
+        x_axis = x_axis / np.linalg.norm(x_axis)
         z_axis = np.cross(x_axis, y_axis)
         z_axis = z_axis / np.linalg.norm(z_axis)
+        y_axis = np.cross(z_axis, x_axis)
 
     elif datum.datum_type == DatumType.PLANE:
         # Normal becomes Z-axis, derive X and Y
-- 
2.43.0


From ef53545856232d7340693afec2f306b7e02cb018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:16 +0000
Subject: [PATCH 054/145] fix: screw mates with a pitch ignored coupling offset
 and reversal

---
 src/yapcad/assembly/mate.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index 0f1980f..e5eeb2c 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -646,25 +646,24 @@ class Mate:
 
             # Screw mate with 2mm pitch
             screw_mate = Mate(mate_type=MateType.SCREW, coupling_pitch=2.0, ...)
-            linear_pos = screw_mate.compute_coupled_motion(math.pi)  # Returns 2.0
+            linear_pos = screw_mate.compute_coupled_motion(2 * math.pi)  # Returns 2.0
         """
         if not self.is_coupled():
             raise ValueError(f"Mate {self.name} is not a coupled type")
 
+        # For SCREW mates, use pitch instead of ratio: driver_position is in
+        # radians and the pitch is the travel of one revolution
+        ratio = self.coupling_ratio
+        if self.mate_type == MateType.SCREW and self.coupling_pitch is not None:
+            ratio = self.coupling_pitch / (2.0 * math.pi)
+
         # Apply coupling ratio and offset
-        driven = driver_position * self.coupling_ratio + self.coupling_offset
+        driven = driver_position * ratio + self.coupling_offset
 
         # Apply reversal if specified
         if self.coupling_reverse:
             driven = -driven
 
-        # For SCREW mates, use pitch instead of ratio
-        if self.mate_type == MateType.SCREW and self.coupling_pitch is not None:
-            # Position = rotations * pitch
-            # driver_position is in radians, convert to rotations
-            rotations = driver_position / (2.0 * math.pi)
-            driven = rotations * self.coupling_pitch
-
         return driven
 
     def to_dict(self) -> Dict[str, Any]:
-- 
2.43.0


From 888d3bbdceb2976ca9f54245176d7f61b03021aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 055/145] fix: runtime errors other than RuntimeError escaped
 the DSL interpreter instead of failing the command

---
 src/yapcad/dsl/runtime/interpreter.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3deb662..50dc28b 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -159,7 +159,13 @@ class Interpreter:
             )
 
         # Wrap parameters as Values
-        wrapped_params = self._wrap_parameters(command, parameters)
+        try:
+            wrapped_params = self._wrap_parameters(command, parameters)
+        except Exception as e:
+            return ExecutionResult(
+                success=False,
+                error_message=f"Error in parameters: {e}",
+            )
 
         # Create execution context
         ctx = create_context(
@@ -169,13 +175,15 @@ class Interpreter:
             source=source,
         )
 
-        # Execute the command body
+        # Execute the command body. Any exception (division by zero, a bad
+        # index, an invalid argument of a builtin, ...) is a failure of the
+        # command, reported in the result.
         try:
             self._execute_command(command, ctx)
-        except RuntimeError as e:
+        except Exception as e:
             return ExecutionResult(
                 success=False,
-                error_message=str(e),
+                error_message=str(e) or type(e).__name__,
                 require_failures=ctx.require_failures,
             )
 
@@ -185,7 +193,14 @@ class Interpreter:
         # dispatches each key to the right ``yapcad.metadata`` helper,
         # which is what downstream consumers (add_part datum lifting,
         # mechatron_export) read.
-        self._apply_command_meta_hint(command, ctx)
+        try:
+            self._apply_command_meta_hint(command, ctx)
+        except Exception as e:
+            return ExecutionResult(
+                success=False,
+                error_message=str(e) or type(e).__name__,
+                require_failures=ctx.require_failures,
+            )
 
         # Build provenance
         provenance = create_provenance(
-- 
2.43.0


From ec2beafce1ec7ad17550b3379f9b5123a1db0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 056/145] fix: failed requirements of called DSL commands were
 dropped

---
 src/yapcad/dsl/runtime/interpreter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 50dc28b..0854a51 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -750,8 +750,12 @@ class Interpreter:
             module_name = self.current_module.name if self.current_module else "unknown"
             cmd_ctx = create_context(module_name, command.name, param_dict, "")
 
-            # Execute the command body
-            self._execute_command(command, cmd_ctx)
+            # Execute the command body; a requirement that fails in the
+            # called command fails the caller too
+            try:
+                self._execute_command(command, cmd_ctx)
+            finally:
+                parent_ctx.require_failures.extend(cmd_ctx.require_failures)
 
             # Apply @meta(...) hint to the emitted solid before returning
             # so the value seen by the caller (e.g. add_part(...)) carries
-- 
2.43.0


From 4752bebcbafd7b46b8704dd3463d17356af74ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 057/145] fix: DSL and/or evaluated the right operand even when
 the left one decides

---
 src/yapcad/dsl/runtime/interpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 0854a51..f873de4 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -581,17 +581,18 @@ class Interpreter:
     def _eval_binary_op(self, op: BinaryOp, ctx: ExecutionContext) -> Value:
         """Evaluate a binary operation."""
         left = self._evaluate(op.left, ctx)
-        right = self._evaluate(op.right, ctx)
 
         # Short-circuit for logical operators
         if op.operator == TokenType.AND:
             if not left.is_truthy():
                 return bool_val(False)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
         elif op.operator == TokenType.OR:
             if left.is_truthy():
                 return bool_val(True)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
+
+        right = self._evaluate(op.right, ctx)
 
         # Arithmetic operators
         if op.operator == TokenType.PLUS:
-- 
2.43.0


From adf1a9b3937303f61284f16e5c376f46f32835cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 058/145] fix: native functions of an earlier module stayed
 callable from the next one an interpreter runs

---
 src/yapcad/dsl/runtime/interpreter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index f873de4..dbecb4e 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -134,6 +134,7 @@ class Interpreter:
 
         # Store the module for command lookups during execution
         self.current_module = transformed_module
+        self.native_functions = {}
 
         # Execute native blocks to register their exported functions
         for native_block in transformed_module.native_blocks:
-- 
2.43.0


From a7c6260077b5a7fe91b5ddebc596c983247de998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 059/145] fix: False returned by a native function became the
 float 0.0, which passes a requirement

---
 src/yapcad/dsl/runtime/interpreter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index dbecb4e..0065ce0 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -794,11 +794,11 @@ class Interpreter:
         except ImportError:
             pass
 
-        # Default to FLOAT for numeric, or wrap as-is
-        if isinstance(result, (int, float)):
-            return float_val(float(result))
-        elif isinstance(result, bool):
+        # Default to FLOAT for numeric, or wrap as-is (bool is an int subclass)
+        if isinstance(result, bool):
             return bool_val(result)
+        elif isinstance(result, (int, float)):
+            return float_val(float(result))
         elif isinstance(result, str):
             return string_val(result)
         elif isinstance(result, list):
-- 
2.43.0


From b9562a22013cca2f2d6ef22dfec0739c3e7ef17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 060/145] fix: named DSL arguments were dropped next to
 positional ones and default values read the caller's variables

---
 src/yapcad/dsl/runtime/interpreter.py | 90 +++++++++++++++++++--------
 1 file changed, 64 insertions(+), 26 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 0065ce0..112fb84 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -265,6 +265,9 @@ class Interpreter:
                 # Evaluate default value expression using temporary context
                 default_val = self._evaluate(param.default_value, temp_ctx)
                 wrapped[param.name] = default_val
+            if param.name in wrapped:
+                # defaults may refer to the parameters before them
+                temp_ctx.set_variable(param.name, wrapped[param.name])
         return wrapped
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
@@ -681,34 +684,65 @@ class Interpreter:
             raise RuntimeError(f"Unsupported callee type: {type(call.callee).__name__}")
 
         # Check for native function first
+        named = getattr(call, 'named_arguments', None) or {}
         if func_name in self.native_functions:
+            if named:
+                raise RuntimeError(
+                    f"Native function '{func_name}' does not take named arguments"
+                )
             return self._call_native_function(func_name, args)
 
         # Check for commands in the current module
         if self.current_module is not None:
             for cmd in self.current_module.commands:
                 if cmd.name == func_name:
-                    # Resolve named_arguments into positional order if present
-                    named = getattr(call, 'named_arguments', {})
-                    if named and not args:
-                        # Build positional arg list from named_arguments
-                        # matching command parameter order
-                        resolved = []
-                        for param in cmd.parameters:
-                            if param.name in named:
-                                resolved.append(self._evaluate(named[param.name], ctx))
-                            elif param.default_value is not None:
-                                resolved.append(self._evaluate(param.default_value, ctx))
-                            else:
-                                raise RuntimeError(
-                                    f"Command '{func_name}' missing required argument '{param.name}'"
-                                )
-                        args = resolved
+                    if named:
+                        args = self._merge_named_arguments(
+                            f"Command '{func_name}'",
+                            [p.name for p in cmd.parameters],
+                            args,
+                            {n: self._evaluate(e, ctx) for n, e in named.items()},
+                        )
                     return self._call_command(cmd, args, ctx)
 
         # Call the built-in function
+        if named:
+            func = get_builtin_registry().get_function(func_name)
+            if func is not None:
+                args = self._merge_named_arguments(
+                    f"Function '{func_name}'",
+                    [p[0] for p in func.signature.params],
+                    args,
+                    {n: self._evaluate(e, ctx) for n, e in named.items()},
+                )
+                if None in args:
+                    raise RuntimeError(
+                        f"Function '{func_name}' needs the arguments before "
+                        f"the named ones given"
+                    )
         return call_builtin(func_name, args)
 
+    @staticmethod
+    def _merge_named_arguments(
+        what: str,
+        names: List[str],
+        args: List[Value],
+        named: Dict[str, Value],
+    ) -> List[Optional[Value]]:
+        """Positional argument list from positional and named arguments.
+
+        Parameters skipped before the last named one are None.
+        """
+        for name in named:
+            if name not in names:
+                raise RuntimeError(f"{what} has no parameter '{name}'")
+            if names.index(name) < len(args):
+                raise RuntimeError(f"{what} got '{name}' twice")
+        merged = list(args) + [named.get(name) for name in names[len(args):]]
+        while len(merged) > len(args) and merged[-1] is None:
+            merged.pop()
+        return merged
+
     def _call_command(self, command: Command, args: List[Value], parent_ctx: ExecutionContext) -> Value:
         """Call a command as a function from within another command."""
         # Check recursion depth limit
@@ -737,16 +771,20 @@ class Interpreter:
                         f"Command '{command.name}' expects {required_count}-{len(command.parameters)} arguments, got {len(args)}"
                     )
 
-            # Assign provided arguments
-            for param, arg in zip(command.parameters, args):
-                param_dict[param.name] = arg
-
-            # Fill in default values for missing parameters
-            for i in range(len(args), len(command.parameters)):
-                param = command.parameters[i]
-                if param.default_value is not None:
-                    default_val = self._evaluate(param.default_value, parent_ctx)
-                    param_dict[param.name] = default_val
+            # Bind the provided arguments and the defaults of the missing
+            # ones, which see only the parameters before them, not the
+            # variables of the caller
+            default_ctx = ExecutionContext()
+            for i, param in enumerate(command.parameters):
+                if i < len(args) and args[i] is not None:
+                    param_dict[param.name] = args[i]
+                elif param.default_value is not None:
+                    param_dict[param.name] = self._evaluate(param.default_value, default_ctx)
+                else:
+                    raise RuntimeError(
+                        f"Command '{command.name}' missing required argument '{param.name}'"
+                    )
+                default_ctx.set_variable(param.name, param_dict[param.name])
 
             # Create a new context for the command execution
             module_name = self.current_module.name if self.current_module else "unknown"
-- 
2.43.0


From ed24674c7485a5df7e6b34aa2afcc005b0b7eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 061/145] fix: variables bound by match patterns overwrote
 variables of the enclosing scope

---
 src/yapcad/dsl/runtime/interpreter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 112fb84..5608ef3 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -1036,8 +1036,9 @@ class Interpreter:
         subject = self._evaluate(match.subject, ctx)
 
         for arm in match.arms:
-            if self._pattern_matches(arm.pattern, subject, ctx):
-                return self._evaluate(arm.body, ctx)
+            with ctx.new_scope("match-arm"):
+                if self._pattern_matches(arm.pattern, subject, ctx):
+                    return self._evaluate(arm.body, ctx)
 
         raise RuntimeError("No match arm matched")
 
-- 
2.43.0


From 82cc3be72009e97f060c93669f8fdc480bb6f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 062/145] fix: failed DSL requirements reported the syntax tree
 of their message

---
 src/yapcad/dsl/runtime/interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 5608ef3..61c7384 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -352,6 +352,8 @@ class Interpreter:
         condition = self._evaluate(stmt.condition, ctx)
         if not condition.is_truthy():
             message = stmt.message if stmt.message else "Constraint violated"
+            if isinstance(message, Expression):
+                message = str(self._evaluate(message, ctx).data)
             ctx.add_require_failure(message)
 
     def _execute_emit(self, stmt: EmitStatement, ctx: ExecutionContext) -> None:
-- 
2.43.0


From 5ee017a0870cea55b3f132a7d89cf5984b3a1842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:50 +0000
Subject: [PATCH 063/145] fix: the result of a called DSL command could not be
 used as a condition

---
 src/yapcad/dsl/runtime/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 61c7384..cbdc9df 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -806,7 +806,7 @@ class Interpreter:
 
             # Return the emitted value
             if cmd_ctx.emit_result is not None:
-                return cmd_ctx.emit_result
+                return cmd_ctx.emit_result.value
             else:
                 raise RuntimeError(f"Command '{command.name}' did not emit a value")
         finally:
-- 
2.43.0


From d0fbd5bb280f9743f37bc131791c88180404db6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 064/145] fix: DSL parameters of a list type were untyped and
 could not be concatenated

---
 src/yapcad/dsl/runtime/interpreter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index cbdc9df..6ab5455 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -247,7 +247,7 @@ class Interpreter:
                 raw_value = parameters[param.name]
                 # Handle optional type annotations (new Pythonic syntax)
                 if param.type_annotation is not None and hasattr(param.type_annotation, 'name'):
-                    param_type = resolve_type_name(param.type_annotation.name)
+                    param_type = self._annotated_type(param.type_annotation)
                 else:
                     # Infer type from the raw value
                     if isinstance(raw_value, bool):
@@ -270,6 +270,16 @@ class Interpreter:
                 temp_ctx.set_variable(param.name, wrapped[param.name])
         return wrapped
 
+    def _annotated_type(self, node: Any) -> Optional[Type]:
+        """The type a parameter annotation stands for."""
+        if node.name == "list":
+            args = getattr(node, "type_args", None) or []
+            element = self._annotated_type(args[0]) if args and hasattr(args[0], "name") else None
+            return ListType(element or FLOAT)
+        if node.name == "dict":
+            return DictType()
+        return resolve_type_name(node.name)
+
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
         """Execute a command's body statements."""
         for stmt in command.body.statements:
-- 
2.43.0


From e316aad4bb671a8cd53841889c9261da353879c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 065/145] fix: native blocks with an indented body lost the
 indentation of their first line only

---
 src/yapcad/dsl/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/parser.py b/src/yapcad/dsl/parser.py
index 457c7da..6066491 100644
--- a/src/yapcad/dsl/parser.py
+++ b/src/yapcad/dsl/parser.py
@@ -5,6 +5,7 @@ Converts a token stream into an Abstract Syntax Tree (AST).
 Supports Python-style indentation-based blocks.
 """
 
+import textwrap
 from typing import List, Optional, Callable, Any, Union
 from .tokens import Token, TokenType, SourceSpan, SourceLocation, is_type_token
 from .ast import (
@@ -1391,10 +1392,9 @@ class Parser:
         """Parse a legacy native python block."""
         start = self._advance()  # consume 'native'
         self._consume(TokenType.PYTHON, "'python'")
-        self._consume(TokenType.LBRACE, "'{'")
+        code_start_offset = self._consume(TokenType.LBRACE, "'{'").span.end.offset
 
         brace_depth = 1
-        code_start_offset = self._current().span.start.offset
 
         while not self._is_at_end() and brace_depth > 0:
             token = self._advance()
@@ -1407,7 +1407,7 @@ class Parser:
         code_end_offset = closing_brace.span.start.offset
 
         if self.source is not None:
-            code = self.source[code_start_offset:code_end_offset].strip()
+            code = textwrap.dedent(self.source[code_start_offset:code_end_offset]).strip()
         else:
             code = ""
 
-- 
2.43.0


From 673a0ee40b6e40584fe368d18617625c0bb33203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 066/145] fix: closed B-splines had too few knots and could not
 be evaluated

---
 src/yapcad/spline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index 47c419f..61a34f0 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -246,8 +246,9 @@ def _uniform_knot_vector(n: int, degree: int, closed: bool = False) -> List[floa
         Uniform knot vector
     """
     if closed:
-        # Periodic knot vector for closed curves
-        m = n + degree + 1
+        # Periodic knot vector for closed curves: the control points are
+        # extended by the first ``degree`` ones, so there are n + degree of them
+        m = n + 2 * degree + 1
         return [float(i - degree) / n for i in range(m)]
     else:
         # Clamped uniform knot vector (curve passes through endpoints)
@@ -341,7 +342,7 @@ def bspline_point(control_points, t: float, degree: int = 3, closed: bool = Fals
         knots = _uniform_knot_vector(n, degree, closed=True)
         # Map t to the active knot domain
         u_min = knots[degree]
-        u_max = knots[n]
+        u_max = knots[n + degree]
         u = u_min + t * (u_max - u_min)
 
         x = y = z = 0.0
-- 
2.43.0


From 772967555ebf4f1d66f456126ab14e47d12bd54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 067/145] fix: NURBS curves with interior knots did not end at
 their last control point

---
 src/yapcad/spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index 61a34f0..2dac715 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -680,7 +680,7 @@ def _nurbs_point(ctrl: Sequence[list], weights: Sequence[float], knots: Sequence
 
 def _nip(i: int, p: int, u: float, knots: Sequence[float]) -> float:
     if p == 0:
-        if knots[i] <= u < knots[i + 1] or (u == knots[-1] and knots[i] < knots[i + 1]):
+        if knots[i] <= u < knots[i + 1] or (u == knots[-1] and knots[i] < knots[i + 1] == u):
             return 1.0
         return 0.0
 
-- 
2.43.0


From 3151190a2ec9a7b0d1e49bb9137a3be0eea557a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 068/145] fix: rounding could push a NURBS parameter of 1 past
 the last knot and give the first control point

---
 src/yapcad/spline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/spline.py b/src/yapcad/spline.py
index 2dac715..c1b64eb 100644
--- a/src/yapcad/spline.py
+++ b/src/yapcad/spline.py
@@ -545,7 +545,10 @@ def evaluate_nurbs(curve, u: float) -> list:
     u_start = knots[degree]
     u_end = knots[-degree - 1]
     u_clamped = max(0.0, min(1.0, float(u)))
-    real_u = u_start + (u_end - u_start) * u_clamped
+    if u_clamped == 1.0:
+        real_u = u_end
+    else:
+        real_u = min(u_start + (u_end - u_start) * u_clamped, u_end)
     return _nurbs_point([point(p) for p in ctrl], weights, knots, degree, real_u)
 
 def sample_catmullrom(curve, *, segments_per_span: int = 12) -> List[list]:
-- 
2.43.0


From 3a8154f84603a7f19443d30a8084554739c6da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 069/145] fix: B-spline surfaces gave the first control point
 at the end of a clamped knot vector

---
 src/yapcad/analytic_surfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index c56a145..01ce00c 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -809,8 +809,8 @@ def _bspline_basis(knots, i, p, u):
         # Base case: piecewise constant
         if knots[i] <= u < knots[i + 1]:
             return 1.0
-        # Handle end of knot span
-        if i + 1 == len(knots) - 1 and u == knots[i + 1]:
+        # Handle end of the knot vector: the last non-empty span includes it
+        if u == knots[-1] and knots[i] < knots[i + 1] == u:
             return 1.0
         return 0.0
 
-- 
2.43.0


From 40a101d77aadd5009a135580a3ce620eb347c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 070/145] fix: rounding at an element boundary could add a full
 turn to an extracted path of arcs

---
 src/yapcad/manufacturing/path_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index a0463b9..f34653e 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -268,8 +268,9 @@ def extract_sub_path(
         else:
             local_t_max = 1.0
 
-        # Skip if this segment contributes nothing
-        if local_t_min >= local_t_max:
+        # Skip if this segment contributes nothing (rounding of t * n_segments
+        # may leave a sliver, which as an arc would look like a full turn)
+        if local_t_max - local_t_min < 1e-9:
             continue
 
         # Extract the relevant portion
-- 
2.43.0


From e0970de507028abe73b603d9eda9379dffb739b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 071/145] fix: length_to_parameter was not the inverse of
 parameter_to_length for elements of unequal length

---
 src/yapcad/manufacturing/path_utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index f34653e..50f1170 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -360,10 +360,16 @@ def length_to_parameter(path3d: Dict[str, Any], arc_length: float) -> float:
     Returns:
         Global parameter t in [0, 1]
     """
-    total_length = path_length(path3d)
-    if total_length < 1e-10:
-        return 0.0
-    return min(1.0, max(0.0, arc_length / total_length))
+    # The parameter counts elements, whatever their length: find the element
+    # containing the length, then the place inside it.
+    segments = path3d.get('segments', [])
+    remaining = max(0.0, arc_length)
+    for i, seg in enumerate(segments):
+        seg_length = path_length({'segments': [seg]})
+        if remaining < seg_length:
+            return (i + remaining / seg_length) / len(segments)
+        remaining -= seg_length
+    return 1.0 if path_length(path3d) >= 1e-10 else 0.0
 
 
 def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
@@ -376,6 +382,8 @@ def parameter_to_length(path3d: Dict[str, Any], t: float) -> float:
     Returns:
         Arc length from path start to parameter t
     """
+    if t <= 0.0:
+        return 0.0
     # Extract sub-path and compute its length
     sub_path = extract_sub_path(path3d, 0.0, t)
     return path_length(sub_path)
-- 
2.43.0


From 797befcc56a26211665dc850002a80fd3ebedfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 072/145] fix: automatically computed cuts could leave pieces
 longer than the maximum

---
 src/yapcad/manufacturing/segmentation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 8eed60f..1059add 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -17,6 +17,7 @@ from .data import (
 from .path_utils import (
     compute_cut_plane,
     extract_sub_path,
+    length_to_parameter,
     path_length,
 )
 from .connectors import (
@@ -766,7 +767,7 @@ def compute_optimal_cuts(
     for i in range(1, num_segments):
         # Convert length to parameter
         cut_length = i * segment_length
-        cut_t = cut_length / total_length
+        cut_t = length_to_parameter(spine, cut_length)
 
         cut_points.append(CutPoint(
             element_id=provenance.id,
-- 
2.43.0


From 45c0bd8936692b5e24e52b7c1fd209788cb664b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 073/145] fix: the assembly graph of a segmentation left out
 the following segment of each piece

---
 src/yapcad/manufacturing/segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 1059add..ab3514d 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -567,7 +567,6 @@ def segment_swept_element(
                     prev_seg.connector_type = "female"
 
         segments.append(segment)
-        assembly_graph[segment_id] = list(segment.mates_with)
 
         prev_segment_id = segment_id
         segment_start_t = cut_point.parameter
@@ -608,7 +607,8 @@ def segment_swept_element(
             prev_seg.mates_with.append(final_segment_id)
 
     segments.append(final_segment)
-    assembly_graph[final_segment_id] = list(final_segment.mates_with)
+    for seg in segments:
+        assembly_graph[seg.id] = list(seg.mates_with)
 
     # Generate assembly instructions
     instructions = _generate_assembly_instructions(segments, connectors)
-- 
2.43.0


From 911533ac2d06186047e5e0f5e944a43fae2c4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 074/145] fix: packages hashed with another algorithm than
 SHA-256 failed their own validation

---
 src/yapcad/package/validator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 5d09164..6f9f9a4 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -18,7 +18,13 @@ def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]
     if not path.exists():
         messages.append(f"ERROR: missing file {path}")
         return False, messages
-    actual_hash = _compute_hash(path)
+    # recorded hashes name their algorithm ("sha512:..."), SHA-256 by default
+    algorithm = expected_hash.split(":", 1)[0].lower() if expected_hash and ":" in expected_hash else "sha256"
+    try:
+        actual_hash = _compute_hash(path, algorithm)
+    except (OSError, ValueError) as exc:
+        messages.append(f"ERROR: cannot compute hash of {path}: {exc}")
+        return False, messages
     if expected_hash and expected_hash.lower() != actual_hash.lower():
         messages.append(
             f"ERROR: hash mismatch for {path} (expected {expected_hash}, got {actual_hash})"
-- 
2.43.0


From 84d35862cbdf2b563ce64f13d6a6397f00021a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 075/145] fix: add_geometry_file copied files outside the
 package or for categories it then rejected

---
 src/yapcad/package/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 04dba65..bffa64c 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -262,6 +262,9 @@ def add_geometry_file(
         The manifest entry dictionary that was inserted.
     """
 
+    if category not in ("derived", "attachments"):
+        raise ValueError(f"unsupported category for geometry file: {category}")
+
     src_path = Path(source)
     if not src_path.exists():
         raise FileNotFoundError(f"geometry source not found: {src_path}")
@@ -278,6 +281,9 @@ def add_geometry_file(
         if dest_relative_path.is_absolute():
             raise ValueError("dest_relative must be a relative path")
 
+        if ".." in dest_relative_path.parts:
+            raise ValueError("dest_relative must stay inside the package")
+
     dest_path = manifest.root / dest_relative_path
     dest_path.parent.mkdir(parents=True, exist_ok=True)
 
-- 
2.43.0


From 386746126541b2c001fa3e56ddd84c21c4948e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 076/145] fix: SSH signatures were never found valid for listed
 signers and never checked without a list

---
 src/yapcad/package/signing.py | 54 ++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 0bda5de..926c704 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -304,30 +304,38 @@ def _verify_ssh_signature(
     
     try:
         if allowed_signers and allowed_signers.exists():
-            # Verify with allowed signers (trusted verification)
-            # Need to figure out principal - for now use wildcard
-            cmd = [
-                "ssh-keygen", "-Y", "verify",
-                "-f", str(allowed_signers),
-                "-I", "*",  # Match any principal
-                "-n", namespace,
-                "-s", sig_file
-            ]
-            result = subprocess.run(cmd, input=content, capture_output=True)
-            
-            if result.returncode == 0:
-                return VerificationStatus.VALID, "verified", None
-            else:
-                stderr = result.stderr.decode('utf-8')
-                if "Could not verify" in stderr:
-                    return VerificationStatus.INVALID, "unknown", stderr
-                else:
-                    return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
+            # Trusted verification: the principals whose key made the signature
+            found = subprocess.run(
+                ["ssh-keygen", "-Y", "find-principals", "-f", str(allowed_signers), "-s", sig_file],
+                capture_output=True
+            )
+            principals = found.stdout.decode('utf-8').split('\n') if found.returncode == 0 else []
+            for principal in principals:
+                if not principal.strip():
+                    continue
+                cmd = [
+                    "ssh-keygen", "-Y", "verify",
+                    "-f", str(allowed_signers),
+                    "-I", principal.strip(),
+                    "-n", namespace,
+                    "-s", sig_file
+                ]
+                result = subprocess.run(cmd, input=content, capture_output=True)
+                if result.returncode == 0:
+                    return VerificationStatus.VALID, principal.strip(), None
+            reason = "Signer not in allowed_signers"
         else:
-            # Without allowed_signers, we can only check signature format validity
-            # This is a limitation - can't verify without knowing the public key
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "No allowed_signers file provided"
-            
+            reason = "No allowed_signers file provided"
+
+        # The signature may still match the content, whoever made it
+        result = subprocess.run(
+            ["ssh-keygen", "-Y", "check-novalidate", "-n", namespace, "-s", sig_file],
+            input=content, capture_output=True
+        )
+        if result.returncode == 0:
+            return VerificationStatus.VALID_UNTRUSTED, "unknown", reason
+        return VerificationStatus.INVALID, "unknown", result.stderr.decode('utf-8')
+
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "ssh-keygen not found"
     finally:
-- 
2.43.0


From 607342ad1fd02e68ec11bf3a8e51753deda4d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 077/145] fix: GPG signatures by revoked or untrusted keys were
 reported valid and the given keyring was ignored

---
 src/yapcad/package/signing.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 926c704..0293a88 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -254,26 +254,25 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
         sig_file = f.name
     
     try:
-        cmd = ["gpg", "--verify", sig_file, content_file]
+        cmd = ["gpg", "--status-fd", "1"]
         if keyring:
-            cmd.extend(["--keyring", str(keyring)])
-        
+            cmd.extend(["--keyring", str(keyring)])  # options go before the files
+        cmd.extend(["--verify", sig_file, content_file])
+
         result = subprocess.run(cmd, capture_output=True)
-        stderr = result.stderr.decode('utf-8')
-        
-        if result.returncode == 0:
-            # Extract signer from output
-            signer = "unknown"
-            for line in stderr.split('\n'):
-                if 'Good signature from' in line:
-                    # Extract quoted name
-                    start = line.find('"') + 1
-                    end = line.rfind('"')
-                    if start > 0 and end > start:
-                        signer = line[start:end]
-            return VerificationStatus.VALID, signer, None
-        elif "Can't check signature: No public key" in stderr:
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "Public key not found"
+        stderr = result.stderr.decode('utf-8', 'replace')
+        status = [line.split(' ', 3)[1:] for line in result.stdout.decode('utf-8', 'replace').split('\n')
+                  if line.startswith('[GNUPG:] ')]
+        seen = {words[0] for words in status}
+
+        # A good signature by a revoked or expired key is no GOODSIG
+        if result.returncode == 0 and 'GOODSIG' in seen and 'BADSIG' not in seen:
+            signer = next((words[2] for words in status if words[0] == 'GOODSIG' and len(words) > 2), "unknown")
+            if seen & {'TRUST_MARGINAL', 'TRUST_FULLY', 'TRUST_ULTIMATE'}:
+                return VerificationStatus.VALID, signer, None
+            return VerificationStatus.VALID_UNTRUSTED, signer, "Key is not trusted"
+        elif 'NO_PUBKEY' in seen:
+            return VerificationStatus.ERROR, "unknown", "Public key not found"
         else:
             return VerificationStatus.INVALID, "unknown", stderr
             
-- 
2.43.0


From fb5e81925f18e338a0635f1205fb2481f5da6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 078/145] fix: adding a signature could overwrite the file of
 an earlier one

---
 src/yapcad/package/signing.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 0293a88..78c01d5 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -144,6 +144,15 @@ def _create_signable_content(manifest_hash: str) -> bytes:
     return content.encode('utf-8')
 
 
+def _unused_signature_file(sig_dir: Path, stem: str, suffix: str = "") -> Path:
+    """A signature file name that no signature has taken."""
+    path, n = sig_dir / f"{stem}{suffix}", 1
+    while path.exists():
+        n += 1
+        path = sig_dir / f"{stem}.{n}{suffix}"
+    return path
+
+
 def _sign_with_gpg(content: bytes, key_id: Optional[str] = None) -> tuple[str, str, str]:
     """Sign content with GPG.
     
@@ -387,6 +396,8 @@ def sign_package(
     if method == SignatureMethod.GPG:
         signature, signer_id, actual_key_id = _sign_with_gpg(content, key_id)
         sig_file = sig_dir / "manifest.sig.asc"
+        if add:
+            sig_file = _unused_signature_file(sig_dir, "manifest.sig", ".asc")
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
@@ -404,6 +415,8 @@ def sign_package(
         # Generate unique filename for SSH signatures
         safe_name = signer_id.replace('@', '_').replace(' ', '_').replace('/', '_')[:20]
         sig_file = sig_dir / f"manifest.sig.{safe_name}"
+        if add:
+            sig_file = _unused_signature_file(sig_dir, f"manifest.sig.{safe_name}")
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
@@ -426,7 +439,7 @@ def sign_package(
         "signature_file": sig_info.signature_file,
     }
     
-    if add and "signatures" in manifest:
+    if add and manifest.get("signatures"):
         manifest["signatures"].append(sig_entry)
     else:
         manifest["signatures"] = [sig_entry]
-- 
2.43.0


From 51182a3ac99d878be12a8a3e7652685968b297e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 079/145] fix: a signed package with altered files was reported
 valid

---
 src/yapcad/package/signing.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 78c01d5..f402904 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -29,10 +29,12 @@ from dataclasses import dataclass, field
 from datetime import datetime, timezone
 from enum import Enum
 from pathlib import Path
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, Iterator, List, Optional
 
 import yaml
 
+from .validator import _check_file
+
 
 class SignatureMethod(Enum):
     """Supported signature methods."""
@@ -71,8 +73,8 @@ class VerificationResult:
     
     @property
     def is_valid(self) -> bool:
-        """True if at least one trusted signature is valid."""
-        return any(s.status == VerificationStatus.VALID for s in self.signatures)
+        """True if at least one trusted signature is valid and nothing contradicts it."""
+        return not self.errors and any(s.status == VerificationStatus.VALID for s in self.signatures)
     
     @property
     def trusted_signers(self) -> int:
@@ -133,6 +135,17 @@ def _compute_canonical_manifest_hash(manifest_path: Path) -> str:
     return hash_bytes.hex()
 
 
+def _listed_files(data: Any) -> Iterator[Dict[str, Any]]:
+    """Every entry of the manifest that records the hash of a file."""
+    if isinstance(data, dict):
+        if isinstance(data.get("path"), str) and isinstance(data.get("hash"), str):
+            yield data
+        data = data.values()
+    if not isinstance(data, (str, bytes)) and hasattr(data, "__iter__"):
+        for item in data:
+            yield from _listed_files(item)
+
+
 def _create_signable_content(manifest_hash: str) -> bytes:
     """Create the content to be signed.
     
@@ -493,6 +506,12 @@ def verify_package(
         result.warnings.append("Package has no signatures")
         return result
     
+    # The signature covers the manifest, and its hashes cover the files
+    for entry in _listed_files(manifest):
+        ok, messages = _check_file(pkg_path / entry["path"], entry["hash"])
+        if not ok:
+            result.errors.extend(messages)
+
     # Verify each signature
     for sig_entry in signatures:
         method_str = sig_entry.get("method", "gpg")
-- 
2.43.0


From dddc30624adb45dec9538ce842d41ec882e29420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 080/145] fix: a signature entry without a file made
 verification crash

---
 src/yapcad/package/signing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index f402904..9a76c94 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -522,7 +522,7 @@ def verify_package(
             continue
         
         sig_file_path = pkg_path / sig_entry.get("signature_file", "")
-        if not sig_file_path.exists():
+        if not sig_file_path.is_file():
             sig_info = SignatureInfo(
                 signer=sig_entry.get("signer", "unknown"),
                 method=method,
-- 
2.43.0


From d4ad2abe95161c4ea88cc19b7e35628a2bd46b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:50 +0000
Subject: [PATCH 081/145] fix: manifests with unquoted timestamps could not be
 signed

---
 src/yapcad/package/signing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 9a76c94..4e49d69 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -128,7 +128,8 @@ def _compute_canonical_manifest_hash(manifest_path: Path) -> str:
         data = {k: v for k, v in data.items() if k != 'signatures'}
     
     # Canonicalize: sort keys, compact JSON
-    canonical = json.dumps(data, sort_keys=True, separators=(',', ':'))
+    # (YAML reads unquoted timestamps as dates)
+    canonical = json.dumps(data, sort_keys=True, separators=(',', ':'), default=lambda d: d.isoformat())
     
     # Compute hash
     hash_bytes = hashlib.sha256(canonical.encode('utf-8')).digest()
-- 
2.43.0


From 791ba357ec221186f7cb2fe22e4d962416868085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 082/145] fix: loading a sketch lost the sampling direction of
 reversed arcs

---
 src/yapcad/io/geometry_json.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 73c0a4a..baeca1f 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -489,9 +489,10 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     vect_data = vect(radius, 0.0, 360.0, orientation)
                     normal = prim.get("normal")
                     if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
+                        elements.append(arc(center, vect_data, _point_from_components(normal),
+                                            samplereverse=(orientation == -2)))
                     else:
-                        elements.append(arc(center, vect_data))
+                        elements.append(arc(center, vect_data, samplereverse=(orientation == -2)))
                 elif kind == "arc":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
                     radius = float(prim.get("radius", 0.0))
@@ -501,9 +502,10 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     vect_data = vect(radius, start_angle, end_angle, orientation)
                     normal = prim.get("normal")
                     if normal is not None:
-                        elements.append(arc(center, vect_data, _point_from_components(normal)))
+                        elements.append(arc(center, vect_data, _point_from_components(normal),
+                                            samplereverse=(orientation == -2)))
                     else:
-                        elements.append(arc(center, vect_data))
+                        elements.append(arc(center, vect_data, samplereverse=(orientation == -2)))
                 elif kind == "ellipse":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
                     semi_major = float(prim.get("semi_major", 1.0))
-- 
2.43.0


From ce137270cb38cc794fd9560e9747301a9801d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 083/145] fix: loading geometry dropped sketches and surfaces
 stored next to solids

---
 src/yapcad/io/geometry_json.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index baeca1f..019b791 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -421,6 +421,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
 
     surfaces: Dict[str, list] = {}
     solids: List[list] = []
+    owned: set = set()  # ids of surfaces that belong to a solid
 
     # First pass: instantiate surfaces explicitly listed
     for entry in doc.get("entities", []):
@@ -462,14 +463,15 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
             set_solid_metadata(solid, metadata)
         brep_from_solid(solid)
         solids.append(solid)
+        owned.update(entry.get("shell", []))
+        for void_ids in entry.get("voids", []):
+            owned.update(void_ids)
 
-    if solids:
-        return solids
     sketches = [
         entry for entry in doc.get("entities", []) if entry.get("type") == "sketch"
     ]
+    geomlists: List[list] = []
     if sketches:
-        geomlists: List[list] = []
         for sketch in sketches:
             primitives = sketch.get("primitives") or []
             elements: List[list] = []
@@ -572,9 +574,8 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 polylines.extend(segments)
             if polylines:
                 geomlists.append(polylines)
-        if geomlists:
-            return geomlists
-    return list(surfaces.values())
+    standalone = [surf for sid, surf in surfaces.items() if sid not in owned]
+    return solids + geomlists + standalone
 
 
 __all__ = [
-- 
2.43.0


From 82e2f26786acb5e0d308057c97dd8fd7b0aef0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:09 +0000
Subject: [PATCH 084/145] fix: geometry JSON documents shared their metadata
 with the model

The document held the live metadata dicts, so serialising with metadata
overrides edited the model (and an earlier entry of the same document), and
objects loaded from one document shared metadata with it and each other.
---
 src/yapcad/io/geometry_json.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 019b791..1097426 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -5,6 +5,7 @@ Implements the draft schema described in ``docs/geometry_json_schema.md``.
 
 from __future__ import annotations
 
+import copy
 import uuid
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Sequence
 
@@ -36,7 +37,6 @@ from yapcad.metadata import (
     ensure_surface_id,
     set_solid_metadata,
     set_surface_metadata,
-    set_layer,
 )
 SCHEMA_ID = "yapcad-geometry-json-v0.1"
 
@@ -78,9 +78,10 @@ def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]
         surface_id = ensure_surface_id(surface)
     except Exception as exc:
         raise RuntimeError(f"failed to ensure surface metadata for {surface!r}") from exc
-    metadata = get_surface_metadata(surface, create=True)
+    # the document gets its own copy: it must not share state with the model
+    metadata = copy.deepcopy(get_surface_metadata(surface, create=True))
     if metadata_override:
-        metadata.update(metadata_override)
+        metadata.update(copy.deepcopy(metadata_override))
     if "layer" not in metadata or not metadata.get("layer"):
         metadata["layer"] = "default"
     verts = surface[1]
@@ -109,9 +110,10 @@ def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]
 
 def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], metadata_override: Optional[Dict[str, Any]] = None) -> Dict[str, Any]:
     solid_id = ensure_solid_id(solid)
-    metadata = get_solid_metadata(solid, create=True)
+    # the document gets its own copy: it must not share state with the model
+    metadata = copy.deepcopy(get_solid_metadata(solid, create=True))
     if metadata_override:
-        metadata.update(metadata_override)
+        metadata.update(copy.deepcopy(metadata_override))
     if "layer" not in metadata or not metadata.get("layer"):
         metadata["layer"] = "default"
     try:
@@ -140,7 +142,6 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
             meta["entityId"] = new_id
             meta["id"] = new_id
             serialized["id"] = new_id
-            set_surface_metadata(surf, meta)
             surface_id = new_id
         surface_cache[surface_id] = serialized
         shell_ids.append(surface_id)
@@ -168,7 +169,6 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
                     meta["entityId"] = new_id
                     meta["id"] = new_id
                     serialized["id"] = new_id
-                    set_surface_metadata(surf, meta)
                     surface_id = new_id
                 surface_cache[surface_id] = serialized
                 void_ids.append(surface_id)
@@ -322,7 +322,7 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
         "layer": "default",
     }
     if metadata_override:
-        metadata.update(metadata_override)
+        metadata.update(copy.deepcopy(metadata_override))
     return {
         "id": metadata["entityId"],
         "type": "sketch",
@@ -356,21 +356,9 @@ def geometry_to_json(
             entity, metadata_override = item[0], dict(item[1])
 
         if issolid(entity):
-            if metadata_override:
-                meta = get_solid_metadata(entity, create=True)
-                layer = metadata_override.get("layer")
-                if layer:
-                    set_layer(meta, layer)
-                meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
             solid_entry = _serialize_solid(entity, surface_cache, metadata_override)
             serialized_entities.append(solid_entry)
         elif issurface(entity):
-            if metadata_override:
-                meta = get_surface_metadata(entity, create=True)
-                layer = metadata_override.get("layer")
-                if layer:
-                    set_layer(meta, layer)
-                meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
             surface_entry = _serialize_surface(entity, metadata_override)
             surface_cache.setdefault(surface_entry["id"], surface_entry)
         elif isgeomlist(entity):
@@ -403,7 +391,7 @@ def _rehydrate_surface(entry: Dict[str, Any]) -> list:
     surface = ['surface', verts, norms, faces, [], []]
     metadata = entry.get("metadata")
     if metadata:
-        set_surface_metadata(surface, metadata)
+        set_surface_metadata(surface, copy.deepcopy(metadata))
     return surface
 
 
@@ -460,7 +448,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         solid = ['solid', shell_surfaces, voids, []]
         metadata = entry.get("metadata")
         if metadata:
-            set_solid_metadata(solid, metadata)
+            set_solid_metadata(solid, copy.deepcopy(metadata))
         brep_from_solid(solid)
         solids.append(solid)
         owned.update(entry.get("shell", []))
-- 
2.43.0


From e7bcbfb6fb96972c9b87ce888f53cedffce79a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:51 +0000
Subject: [PATCH 085/145] fix: an entityId given for a solid was also given to
 all its surfaces

---
 src/yapcad/io/geometry_json.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 1097426..1d95004 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -108,6 +108,11 @@ def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]
     }
 
 
+def _without_identity(override: Dict[str, Any]) -> Dict[str, Any]:
+    """Metadata of a solid as inherited by its surfaces (which keep their ids)."""
+    return {k: v for k, v in override.items() if k not in ("id", "entityId")}
+
+
 def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], metadata_override: Optional[Dict[str, Any]] = None) -> Dict[str, Any]:
     solid_id = ensure_solid_id(solid)
     # the document gets its own copy: it must not share state with the model
@@ -130,7 +135,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         surface_meta = get_surface_metadata(surf, create=True)
         surface_override = None
         if metadata_override:
-            surface_override = dict(metadata_override)
+            surface_override = _without_identity(metadata_override)
         if parent_layer and (not surface_meta.get("layer") or surface_meta.get("layer") == "default"):
             surface_override = dict(surface_override or {})
             surface_override["layer"] = parent_layer
@@ -157,7 +162,7 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
                 surface_meta = get_surface_metadata(surf, create=True)
                 surface_override = None
                 if metadata_override:
-                    surface_override = dict(metadata_override)
+                    surface_override = _without_identity(metadata_override)
                 if parent_layer and (not surface_meta.get("layer") or surface_meta.get("layer") == "default"):
                     surface_override = dict(surface_override or {})
                     surface_override["layer"] = parent_layer
-- 
2.43.0


From b59a6ed034867034eeec7824d99b908815300906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:51 +0000
Subject: [PATCH 086/145] fix: a surface with the id of another surface was
 left out of the document

---
 src/yapcad/io/geometry_json.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 1d95004..6e55d6f 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -365,7 +365,12 @@ def geometry_to_json(
             serialized_entities.append(solid_entry)
         elif issurface(entity):
             surface_entry = _serialize_surface(entity, metadata_override)
-            surface_cache.setdefault(surface_entry["id"], surface_entry)
+            while surface_entry["id"] in surface_cache:
+                new_id = uuid.uuid4().hex
+                surface_entry["metadata"]["entityId"] = new_id
+                surface_entry["metadata"]["id"] = new_id
+                surface_entry["id"] = new_id
+            surface_cache[surface_entry["id"]] = surface_entry
         elif isgeomlist(entity):
             sketch_entry = _serialize_sketch(entity, metadata_override)
             serialized_entities.append(sketch_entry)
-- 
2.43.0


From 61eff6f893a41bb38572254cad58d35bb66083a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:51 +0000
Subject: [PATCH 087/145] fix: sketch curves in a document shared their
 parameters with the model

---
 src/yapcad/io/geometry_json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 6e55d6f..2cacc9c 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -288,7 +288,7 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             poly_vectors.append(_sample_geometry_element(element))
         elif iscatmullrom(element):
             control_points = [_point_components(pt) for pt in element[1]]
-            params = dict(element[2])
+            params = copy.deepcopy(element[2])
             primitives.append(
                 {
                     "kind": "catmullrom",
@@ -299,7 +299,7 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             poly_vectors.append(_sample_geometry_element(element))
         elif isnurbs(element):
             control_points = [_point_components(pt) for pt in element[1]]
-            params = dict(element[2])
+            params = copy.deepcopy(element[2])
             primitives.append(
                 {
                     "kind": "nurbs",
-- 
2.43.0


From 3f8fec433ee07d7f9a16a9a338f57fa8d0240db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:51 +0000
Subject: [PATCH 088/145] fix: non-finite coordinates were written to geometry
 documents

---
 src/yapcad/io/geometry_json.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 2cacc9c..fe07596 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -6,6 +6,7 @@ Implements the draft schema described in ``docs/geometry_json_schema.md``.
 from __future__ import annotations
 
 import copy
+import math
 import uuid
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Sequence
 
@@ -42,7 +43,10 @@ SCHEMA_ID = "yapcad-geometry-json-v0.1"
 
 
 def _float_vec(vec: Iterable[float]) -> List[float]:
-    return [float(c) for c in vec]
+    result = [float(c) for c in vec]
+    if not all(math.isfinite(c) for c in result):
+        raise ValueError(f"geometry with non-finite coordinates cannot be serialized: {result}")
+    return result
 
 
 def _int_vec(vec: Iterable[int]) -> List[int]:
-- 
2.43.0


From b276cde520eefab37d17909f7f2b5590d8dfa50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 089/145] fix: a part with a material could not be packaged

---
 src/yapcad/package/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index bffa64c..c9688b2 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -64,6 +64,8 @@ def _collect_material_refs(entities: Iterable[list]) -> List[str]:
         else:
             continue
         mat_ref = meta.get("material")
+        if isinstance(mat_ref, dict):
+            mat_ref = mat_ref.get("name")
         if mat_ref and mat_ref not in seen:
             refs.append(mat_ref)
             seen.add(mat_ref)
-- 
2.43.0


From 560dac55c0174bdfeb2021912f9fd3a5d4461a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:54 +0000
Subject: [PATCH 090/145] fix: the construction record of a solid ended up as
 its material

---
 src/yapcad/geom3d.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index aa2cc5b..959baa3 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -755,6 +755,7 @@ def solid(*args):
         material = []
         construction = []
         metadata = None
+        lists = 0
 
         for item in args[1:]:
             if isinstance(item, dict):
@@ -762,9 +763,11 @@ def solid(*args):
                     raise ValueError('multiple metadata dictionaries passed to solid')
                 metadata = item
             elif isinstance(item, list):
-                if material == []:
+                # an empty list still holds its place
+                lists += 1
+                if lists == 1:
                     material = item
-                elif construction == []:
+                elif lists == 2:
                     construction = item
                 else:
                     raise ValueError('too many list arguments passed to solid')
-- 
2.43.0


From e069b943fe7d3c9232220b25e5d660f04dce99f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 091/145] fix: validation passed with unmet or unevaluated
 acceptance criteria

---
 src/yapcad/package/analysis/base.py          |  27 ++++
 src/yapcad/package/analysis/calculix.py      |  18 +--
 src/yapcad/package/analysis/fenics.py        |  22 +---
 src/yapcad/package/analysis/yapcad_native.py | 127 ++++++-------------
 4 files changed, 78 insertions(+), 116 deletions(-)

diff --git a/src/yapcad/package/analysis/base.py b/src/yapcad/package/analysis/base.py
index 29354ac..898dd5f 100644
--- a/src/yapcad/package/analysis/base.py
+++ b/src/yapcad/package/analysis/base.py
@@ -100,6 +100,32 @@ class AnalysisAdapter(abc.ABC):
         """Execute the plan and return an ``AnalysisResult``."""
 
 
+def evaluate_criterion(
+    value: Optional[float], limit: Any, rule: Dict[str, Any]
+) -> Optional[bool]:
+    """Return whether ``value`` meets ``limit`` under the rule's comparison.
+
+    ``None`` means the criterion cannot be decided: the metric is missing, or
+    the comparison operator is not one of the supported ones.
+    """
+    if value is None:
+        return None
+
+    limit = float(limit)
+    comparison = rule.get("comparison", "<=")
+    if comparison == "<=":
+        return value <= limit
+    if comparison == "<":
+        return value < limit
+    if comparison == ">=":
+        return value >= limit
+    if comparison == ">":
+        return value > limit
+    if comparison in ("==", "~="):
+        return abs(value - limit) <= float(rule.get("tolerance", 0.0))
+    return None
+
+
 _BACKENDS: Dict[str, Type[AnalysisAdapter]] = {}
 
 
@@ -204,6 +230,7 @@ __all__ = [
     "AnalysisResult",
     "ExecutionConfig",
     "available_backends",
+    "evaluate_criterion",
     "get_backend",
     "load_plan",
     "register_backend",
diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index 721ac8a..7155c84 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -11,7 +11,7 @@ from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
 
 from ..core import PackageManifest
-from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, register_backend
+from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, evaluate_criterion, register_backend
 
 
 def _now() -> str:
@@ -288,23 +288,15 @@ class CalculixAdapter(AnalysisAdapter):
             metric_value = metrics.get(key)
             if metric_value is None:
                 metric_value = metrics.get(f"{key}_mm")
-            if metric_value is None:
-                status = "pending"
-                continue
             limit = rule.get("limit")
             if limit is None and "limit_mm" in rule:
                 limit = rule["limit_mm"]
             if limit is None:
                 continue
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-            if comparison == "<=" and not (metric_value <= limit):
-                return "failed"
-            if comparison == "<" and not (metric_value < limit):
-                return "failed"
-            if comparison == ">=" and not (metric_value >= limit):
-                return "failed"
-            if comparison == ">" and not (metric_value > limit):
+            passed = evaluate_criterion(metric_value, limit, rule)
+            if passed is None:
+                status = "pending"
+            elif not passed:
                 return "failed"
         return status
 
diff --git a/src/yapcad/package/analysis/fenics.py b/src/yapcad/package/analysis/fenics.py
index 3b1759a..9848b39 100644
--- a/src/yapcad/package/analysis/fenics.py
+++ b/src/yapcad/package/analysis/fenics.py
@@ -30,7 +30,7 @@ from datetime import datetime, timezone
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
 
-from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, register_backend
+from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, evaluate_criterion, register_backend
 from .gmsh_mesher import GmshMesher, MeshHints, gmsh_available
 
 # FEniCSx imports with graceful fallback
@@ -740,6 +740,7 @@ class FenicsxAdapter(AnalysisAdapter):
         if not acceptance:
             return "passed" if metrics else "pending"
 
+        status = "passed"
         for key, rule in acceptance.items():
             metric_value = metrics.get(key)
 
@@ -749,9 +750,6 @@ class FenicsxAdapter(AnalysisAdapter):
             if metric_value is None:
                 metric_value = metrics.get(key.replace(".", "_"))
 
-            if metric_value is None:
-                return "pending"
-
             limit = rule.get("limit")
             if limit is None:
                 limit = rule.get("limit_mm")
@@ -762,19 +760,13 @@ class FenicsxAdapter(AnalysisAdapter):
             if limit is None:
                 continue
 
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-
-            if comparison == "<=" and metric_value > limit:
-                return "failed"
-            elif comparison == "<" and metric_value >= limit:
-                return "failed"
-            elif comparison == ">=" and metric_value < limit:
-                return "failed"
-            elif comparison == ">" and metric_value <= limit:
+            passed = evaluate_criterion(metric_value, limit, rule)
+            if passed is None:
+                status = "pending"
+            elif not passed:
                 return "failed"
 
-        return "passed"
+        return status
 
 
 # Register the backend
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index f3d6c29..d015ef4 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -25,7 +25,7 @@ from datetime import datetime, timezone
 from pathlib import Path
 from typing import Any, Dict, List, Optional
 
-from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, register_backend
+from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, evaluate_criterion, register_backend
 
 
 def _now() -> str:
@@ -112,6 +112,8 @@ class YapCADNativeAdapter(AnalysisAdapter):
             elif status == "failed":
                 summary["statusDetail"] = "Acceptance criteria violated"
                 summary["failed_criteria"] = self._get_failed_criteria(metrics, plan.acceptance)
+            else:
+                summary["statusDetail"] = "Acceptance evaluation incomplete"
 
         except Exception as e:
             summary["statusDetail"] = f"Check failed: {str(e)}"
@@ -564,58 +566,44 @@ class YapCADNativeAdapter(AnalysisAdapter):
             "Clearance check requires entity lookup - not yet implemented"
         )
 
+    def _lookup_metric(self, metrics: Dict[str, float], key: str) -> Optional[float]:
+        """Find the metric a criterion refers to, or ``None``."""
+        # Try exact key match first
+        metric_value = metrics.get(key)
+
+        # Try alternate key formats
+        if metric_value is None:
+            # Try without dots (e.g., "bbox_x" for "bbox.x")
+            metric_value = metrics.get(key.replace(".", "_"))
+        if metric_value is None:
+            # Try with underscores as dots
+            metric_value = metrics.get(key.replace("_", "."))
+        return metric_value
+
     def _evaluate_acceptance(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
     ) -> str:
-        """Evaluate acceptance criteria against computed metrics."""
+        """Evaluate acceptance criteria against computed metrics.
+
+        "failed" when a criterion is violated, "pending" when none is but one
+        of them cannot be evaluated, "passed" otherwise.
+        """
         if not acceptance:
             return "passed" if metrics else "pending"
 
+        status = "passed"
         for key, rule in acceptance.items():
-            # Try exact key match first
-            metric_value = metrics.get(key)
-
-            # Try alternate key formats
-            if metric_value is None:
-                # Try without dots (e.g., "bbox_x" for "bbox.x")
-                metric_value = metrics.get(key.replace(".", "_"))
-            if metric_value is None:
-                # Try with underscores as dots
-                metric_value = metrics.get(key.replace("_", "."))
-
-            if metric_value is None:
-                # Metric not found - can't evaluate
-                continue
-
             limit = rule.get("limit")
             if limit is None:
                 continue
 
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-            tolerance = rule.get("tolerance", 0.0)
-
-            if comparison == "<=":
-                if metric_value > limit:
-                    return "failed"
-            elif comparison == "<":
-                if metric_value >= limit:
-                    return "failed"
-            elif comparison == ">=":
-                if metric_value < limit:
-                    return "failed"
-            elif comparison == ">":
-                if metric_value <= limit:
-                    return "failed"
-            elif comparison == "==":
-                if abs(metric_value - limit) > tolerance:
-                    return "failed"
-            elif comparison == "~=":
-                # Approximate equality with tolerance
-                if abs(metric_value - limit) > tolerance:
-                    return "failed"
-
-        return "passed"
+            passed = evaluate_criterion(self._lookup_metric(metrics, key), limit, rule)
+            if passed is None:
+                status = "pending"
+            elif not passed:
+                return "failed"
+
+        return status
 
     def _get_failed_criteria(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
@@ -624,35 +612,18 @@ class YapCADNativeAdapter(AnalysisAdapter):
         failed = []
 
         for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
-            if metric_value is None:
-                continue
-
             limit = rule.get("limit")
             if limit is None:
                 continue
 
-            limit = float(limit)
-            comparison = rule.get("comparison", "<=")
-
-            violated = False
-            if comparison == "<=" and metric_value > limit:
-                violated = True
-            elif comparison == "<" and metric_value >= limit:
-                violated = True
-            elif comparison == ">=" and metric_value < limit:
-                violated = True
-            elif comparison == ">" and metric_value <= limit:
-                violated = True
-
-            if violated:
+            metric_value = self._lookup_metric(metrics, key)
+            passed = evaluate_criterion(metric_value, limit, rule)
+            if passed is not None and not passed:
                 failed.append({
                     "criterion": key,
                     "value": metric_value,
-                    "limit": limit,
-                    "comparison": comparison,
+                    "limit": float(limit),
+                    "comparison": rule.get("comparison", "<="),
                 })
 
         return failed
@@ -664,36 +635,16 @@ class YapCADNativeAdapter(AnalysisAdapter):
         results = {}
 
         for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
-
+            metric_value = self._lookup_metric(metrics, key)
             limit = rule.get("limit")
-            comparison = rule.get("comparison", "<=")
-
             result = {
                 "value": metric_value,
                 "limit": limit,
-                "comparison": comparison,
+                "comparison": rule.get("comparison", "<="),
                 "passed": None,
             }
-
-            if metric_value is not None and limit is not None:
-                limit = float(limit)
-                if comparison == "<=":
-                    result["passed"] = metric_value <= limit
-                elif comparison == "<":
-                    result["passed"] = metric_value < limit
-                elif comparison == ">=":
-                    result["passed"] = metric_value >= limit
-                elif comparison == ">":
-                    result["passed"] = metric_value > limit
-                elif comparison == "==":
-                    tolerance = rule.get("tolerance", 0.0)
-                    result["passed"] = abs(metric_value - limit) <= tolerance
-                elif comparison == "~=":
-                    tolerance = rule.get("tolerance", 0.0)
-                    result["passed"] = abs(metric_value - limit) <= tolerance
+            if limit is not None:
+                result["passed"] = evaluate_criterion(metric_value, limit, rule)
 
             results[key] = result
 
-- 
2.43.0


From 2bb9f39f060d63ab15e11be2f668ae0f4105f540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 092/145] fix: malformed validation plans crashed the schema
 validator

---
 src/yapcad/package/analysis/schema.py | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/package/analysis/schema.py b/src/yapcad/package/analysis/schema.py
index 677541d..3e24e6d 100644
--- a/src/yapcad/package/analysis/schema.py
+++ b/src/yapcad/package/analysis/schema.py
@@ -11,7 +11,7 @@ from __future__ import annotations
 from dataclasses import dataclass, field
 from enum import Enum
 from pathlib import Path
-from typing import Any, Dict, List, Optional, Sequence, Union
+from typing import Any, Dict, Iterable, List, Optional, Sequence, Union
 
 
 class ValidationKind(Enum):
@@ -183,6 +183,11 @@ def _check_field_type(
     return True
 
 
+def _is_one_of(value: Any, valid_values: Iterable[str]) -> bool:
+    """Membership test that also accepts unhashable values."""
+    return isinstance(value, str) and value in valid_values
+
+
 def _check_enum_value(
     value: Any,
     valid_values: Sequence[str],
@@ -190,7 +195,7 @@ def _check_enum_value(
     errors: List[SchemaError],
 ) -> bool:
     """Check that a value is one of the valid options."""
-    if value not in valid_values:
+    if not _is_one_of(value, valid_values):
         errors.append(SchemaError(
             path=path,
             message=f"Invalid value '{value}', expected one of: {', '.join(sorted(valid_values))}",
@@ -220,7 +225,7 @@ def validate_acceptance_criterion(
     if "comparison" in criterion:
         comparison = criterion["comparison"]
         valid_ops = {op.value for op in ComparisonOp}
-        if comparison not in valid_ops:
+        if not _is_one_of(comparison, valid_ops):
             errors.append(SchemaError(
                 path=f"{path}.comparison",
                 message=f"Invalid comparison '{comparison}', expected one of: {', '.join(sorted(valid_ops))}",
@@ -288,7 +293,7 @@ def validate_load(
         valid = False
     else:
         load_type = load["type"]
-        if load_type not in VALID_LOAD_TYPES:
+        if not _is_one_of(load_type, VALID_LOAD_TYPES):
             errors.append(SchemaError(
                 path=f"{load_path}.type",
                 message=f"Invalid load type '{load_type}', expected one of: {', '.join(sorted(VALID_LOAD_TYPES))}",
@@ -334,7 +339,7 @@ def validate_boundary_condition(
         valid = False
     else:
         bc_type = bc["type"]
-        if bc_type not in VALID_BC_TYPES:
+        if not _is_one_of(bc_type, VALID_BC_TYPES):
             errors.append(SchemaError(
                 path=f"{bc_path}.type",
                 message=f"Invalid BC type '{bc_type}', expected one of: {', '.join(sorted(VALID_BC_TYPES))}",
@@ -424,7 +429,7 @@ def validate_check_section(
     else:
         prop = check["property"]
         valid_props = VALID_CHECK_PROPERTIES.get(kind, set())
-        if prop not in valid_props:
+        if not _is_one_of(prop, valid_props):
             errors.append(SchemaError(
                 path=f"{path}.property",
                 message=f"Invalid property '{prop}' for kind '{kind}', expected one of: {', '.join(sorted(valid_props))}",
@@ -456,7 +461,7 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
     # Validate kind
     kind = data["kind"]
     valid_kinds = {k.value for k in ValidationKind}
-    if kind not in valid_kinds:
+    if not _is_one_of(kind, valid_kinds):
         errors.append(SchemaError(
             path="kind",
             message=f"Invalid kind '{kind}', expected one of: {', '.join(sorted(valid_kinds))}",
@@ -564,9 +569,9 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
 
     unknown = set(data.keys()) - known_fields
     # Don't warn about metadata subfields or common extras
-    for unk in sorted(unknown):
+    for unk in sorted(unknown, key=str):
         warnings.append(SchemaError(
-            path=unk,
+            path=str(unk),
             message=f"Unknown field '{unk}' (may be ignored)",
             severity="warning",
         ))
@@ -599,7 +604,7 @@ def validate_result(data: Dict[str, Any]) -> ValidationReport:
     # Validate status
     status = data["status"]
     valid_statuses = {s.value for s in ResultStatus}
-    if status not in valid_statuses:
+    if not _is_one_of(status, valid_statuses):
         errors.append(SchemaError(
             path="status",
             message=f"Invalid status '{status}', expected one of: {', '.join(sorted(valid_statuses))}",
@@ -678,9 +683,9 @@ def validate_result(data: Dict[str, Any]) -> ValidationReport:
     # Check for unknown fields
     known_fields = RESULT_REQUIRED_FIELDS | RESULT_OPTIONAL_FIELDS
     unknown = set(data.keys()) - known_fields
-    for unk in sorted(unknown):
+    for unk in sorted(unknown, key=str):
         warnings.append(SchemaError(
-            path=unk,
+            path=str(unk),
             message=f"Unknown field '{unk}' (may be ignored)",
             severity="warning",
         ))
-- 
2.43.0


From 3a6b136ce4b689de3f3c8bc6a886c1b832ae8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 093/145] fix: boundary conditions under the second spelling
 were not validated

---
 src/yapcad/package/analysis/schema.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/package/analysis/schema.py b/src/yapcad/package/analysis/schema.py
index 3e24e6d..47702e2 100644
--- a/src/yapcad/package/analysis/schema.py
+++ b/src/yapcad/package/analysis/schema.py
@@ -532,11 +532,9 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
                         ))
 
         # Validate boundary conditions
-        bc_key = "boundaryConditions"
-        if bc_key not in data:
-            bc_key = "boundary_conditions"
-
-        if bc_key in data:
+        for bc_key in ("boundaryConditions", "boundary_conditions"):
+            if bc_key not in data:
+                continue
             bcs = data[bc_key]
             if not isinstance(bcs, list):
                 errors.append(SchemaError(
-- 
2.43.0


From c07075ddadd859f2522c4e91433754717b208209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 094/145] fix: explicit zeros in CalculiX plan options were
 replaced by defaults

---
 src/yapcad/package/analysis/calculix.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index 7155c84..5f9cc5a 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -152,10 +152,13 @@ class CalculixAdapter(AnalysisAdapter):
         opts = dict(plan.backend_options)
         geom = dict(plan.geometry)
 
-        inner = float(opts.get("inner_radius_mm") or geom.get("inner_radius_mm") or 0.0)
-        outer = float(opts.get("outer_radius_mm") or geom.get("outer_radius_mm") or (inner + 1.0))
-        thickness = float(opts.get("thickness_mm") or geom.get("thickness_mm") or 10.0)
-        thrust = float(opts.get("thrust_n") or opts.get("thrust_force_n") or 2224.0)
+        def first(*values: Any) -> float:
+            return float(next(v for v in values if v is not None))
+
+        inner = first(opts.get("inner_radius_mm"), geom.get("inner_radius_mm"), 0.0)
+        outer = first(opts.get("outer_radius_mm"), geom.get("outer_radius_mm"), inner + 1.0)
+        thickness = first(opts.get("thickness_mm"), geom.get("thickness_mm"), 10.0)
+        thrust = first(opts.get("thrust_n"), opts.get("thrust_force_n"), 2224.0)
 
         radial = int(opts.get("radial_divisions", 24))
         axial = int(opts.get("thickness_divisions", 2))
-- 
2.43.0


From 69ddc742d0dda3e7a2248ade9b7274c6dd7f50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 095/145] fix: undefined CalculiX displacements were left out
 of the maximum

---
 src/yapcad/package/analysis/calculix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index 5f9cc5a..477683a 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -278,6 +278,8 @@ class CalculixAdapter(AnalysisAdapter):
                     continue
                 uz = numeric_parts[1] if len(numeric_parts) > 1 else numeric_parts[0]
                 uz_abs = abs(uz)
+                if math.isnan(uz_abs):
+                    return uz_abs
                 if max_disp is None or uz_abs > max_disp:
                     max_disp = uz_abs
         return max_disp
-- 
2.43.0


From 0eb6cefea3b63e143f616433cf261dc94d2905be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 096/145] fix: recorded validation results lost plan_id and
 acceptance_results

---
 src/yapcad/package/analysis/cli.py           | 1 +
 src/yapcad/package/analysis/yapcad_native.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index 1dacd8c..b24e493 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -107,6 +107,7 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
         "timestamp": result.timestamp,
     }
     summary_payload.setdefault("plan", plan.plan_id)
+    summary_payload.setdefault("plan_id", plan.plan_id)
     summary_payload.setdefault("status", result.status)
     summary_payload.setdefault("backend", result.backend)
     summary_payload.setdefault("timestamp", result.timestamp)
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index d015ef4..f3b560d 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -106,6 +106,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
             # Evaluate acceptance criteria
             status = self._evaluate_acceptance(metrics, plan.acceptance)
             summary["metrics"] = metrics
+            summary["acceptance_results"] = self._build_acceptance_results(metrics, plan.acceptance)
 
             if status == "passed":
                 summary["statusDetail"] = "Acceptance criteria satisfied"
@@ -135,7 +136,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
                 "timestamp": summary["timestamp"],
                 "backend": "yapcad",
                 "metrics": metrics,
-                "acceptance_results": self._build_acceptance_results(metrics, plan.acceptance),
+                "acceptance_results": summary["acceptance_results"],
             }, f, indent=2)
         artifacts.append({"kind": "summary", "path": "summary.json"})
 
-- 
2.43.0


From 102d5b0563e4004ad9c6f17304f1091ae7f3b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 097/145] fix: a rerun that produced no metrics kept those of
 the previous run

---
 src/yapcad/package/analysis/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index b24e493..20a9b1a 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -132,6 +132,8 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
     manifest_entry.setdefault("path", str(summary_path.relative_to(root)))
     existing = next((item for item in results if item.get("plan") == plan.plan_id), None)
     if existing:
+        for key in ("metrics", "artifacts", "notes"):
+            existing.pop(key, None)
         existing.update(manifest_entry)
     else:
         results.append(manifest_entry)
-- 
2.43.0


From 21cbf970737f025cdadd03e1e03dea0fddf2f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:46 +0000
Subject: [PATCH 098/145] fix: faces of a solid could not be named (missing
 geometry helpers)

---
 src/yapcad/package/analysis/face_naming.py | 50 ++++++++++++++--------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/yapcad/package/analysis/face_naming.py b/src/yapcad/package/analysis/face_naming.py
index d0f14e7..c35ef7b 100644
--- a/src/yapcad/package/analysis/face_naming.py
+++ b/src/yapcad/package/analysis/face_naming.py
@@ -216,12 +216,12 @@ class FaceNamer:
 
     def _extract_faces(self) -> None:
         """Extract face information from solid."""
-        from yapcad.geom3d import issolid, getsurfaces
+        from yapcad.geom3d import issolid
 
         if not issolid(self.solid):
             return
 
-        surfaces = getsurfaces(self.solid)
+        surfaces = self.solid[1]
 
         for i, surf in enumerate(surfaces):
             centroid = self._compute_centroid(surf)
@@ -235,31 +235,47 @@ class FaceNamer:
                 area=area,
             ))
 
+    def _triangle_sums(
+        self, surface: Any
+    ) -> Tuple[float, List[float], List[float]]:
+        """Area, area-weighted centroid sum and vector area of a surface."""
+        area = 0.0
+        moment = [0.0, 0.0, 0.0]
+        vector = [0.0, 0.0, 0.0]
+        for face in surface[3]:
+            a, b, c = (surface[1][i] for i in face)
+            u = [b[k] - a[k] for k in range(3)]
+            v = [c[k] - a[k] for k in range(3)]
+            cross = [
+                u[1]*v[2] - u[2]*v[1],
+                u[2]*v[0] - u[0]*v[2],
+                u[0]*v[1] - u[1]*v[0],
+            ]
+            weight = 0.5 * math.sqrt(sum(x*x for x in cross))
+            area += weight
+            for k in range(3):
+                moment[k] += weight * (a[k] + b[k] + c[k]) / 3.0
+                vector[k] += 0.5 * cross[k]
+        return area, moment, vector
+
     def _compute_centroid(self, surface: Any) -> Tuple[float, float, float]:
         """Compute face centroid."""
-        from yapcad.geom3d import surface_center
-        try:
-            center = surface_center(surface)
-            return (float(center[0]), float(center[1]), float(center[2]))
-        except Exception:
+        area, moment, _ = self._triangle_sums(surface)
+        if area <= 0.0:
             return (0.0, 0.0, 0.0)
+        return (moment[0]/area, moment[1]/area, moment[2]/area)
 
     def _compute_normal(self, surface: Any) -> Tuple[float, float, float]:
         """Compute face normal (average for curved faces)."""
-        from yapcad.geom3d import surface_normal
-        try:
-            normal = surface_normal(surface)
-            return (float(normal[0]), float(normal[1]), float(normal[2]))
-        except Exception:
+        _, _, vector = self._triangle_sums(surface)
+        mag = math.sqrt(sum(x*x for x in vector))
+        if mag <= 1e-12:
             return (0.0, 0.0, 1.0)
+        return (vector[0]/mag, vector[1]/mag, vector[2]/mag)
 
     def _compute_area(self, surface: Any) -> float:
         """Compute face area."""
-        from yapcad.geom3d import surface_area
-        try:
-            return float(surface_area(surface))
-        except Exception:
-            return 0.0
+        return self._triangle_sums(surface)[0]
 
     @property
     def faces(self) -> List[FaceInfo]:
-- 
2.43.0


From 3e9ad5509166ea33e6be67bb4915e9d099f61998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:55 +0000
Subject: [PATCH 099/145] fix: normals of cone surfaces pointed inwards

---
 src/yapcad/analytic_surfaces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index 01ce00c..696996a 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -511,12 +511,12 @@ def cone_surface_normal(surf, u, v):
     sin_a = sin(half_angle)
     cos_a = cos(half_angle)
 
-    # Normal = sin_a*axis - cos_a*(ref*cos(u) + cross*sin(u))
+    # Normal = cos_a*(ref*cos(u) + cross*sin(u)) - sin_a*axis
     # (outward normal for cone surface)
     return [
-        sin_a * axis[0] - cos_a * (ref[0] * cos_u + cross[0] * sin_u),
-        sin_a * axis[1] - cos_a * (ref[1] * cos_u + cross[1] * sin_u),
-        sin_a * axis[2] - cos_a * (ref[2] * cos_u + cross[2] * sin_u),
+        cos_a * (ref[0] * cos_u + cross[0] * sin_u) - sin_a * axis[0],
+        cos_a * (ref[1] * cos_u + cross[1] * sin_u) - sin_a * axis[1],
+        cos_a * (ref[2] * cos_u + cross[2] * sin_u) - sin_a * axis[2],
         0.0
     ]
 
-- 
2.43.0


From 7b1043949224bdbfaa587736ce21fe3914da2abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:55 +0000
Subject: [PATCH 100/145] fix: B-spline surface normals at the end of the
 parameter range were (0, 0, 1)

---
 src/yapcad/analytic_surfaces.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/analytic_surfaces.py b/src/yapcad/analytic_surfaces.py
index 696996a..48b071b 100644
--- a/src/yapcad/analytic_surfaces.py
+++ b/src/yapcad/analytic_surfaces.py
@@ -898,10 +898,16 @@ def bspline_surface_normal(surf, u, v, delta=1e-6):
     du = min(delta, (u_range[1] - u_range[0]) * 0.01)
     dv = min(delta, (v_range[1] - v_range[0]) * 0.01)
 
+    # At the end of the range step backwards
+    if u + du > u_range[1]:
+        du = -du
+    if v + dv > v_range[1]:
+        dv = -dv
+
     # Sample points for partial derivatives
     p0 = evaluate_bspline_surface(surf, u, v)
-    pu = evaluate_bspline_surface(surf, min(u + du, u_range[1]), v)
-    pv = evaluate_bspline_surface(surf, u, min(v + dv, v_range[1]))
+    pu = evaluate_bspline_surface(surf, u + du, v)
+    pv = evaluate_bspline_surface(surf, u, v + dv)
 
     # Tangent vectors
     tu = [(pu[i] - p0[i]) / du for i in range(3)]
-- 
2.43.0


From 4e8499ae514a130161bceebda926662d5eea2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 101/145] fix: tangents of conics outside the XY plane ignored
 the plane

---
 src/yapcad/geom.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 7a70d64..612e7fe 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -899,6 +899,18 @@ def ellipse_sample(e, u):
         return point(center[0] + x_3d, center[1] + y_3d, center[2] + z_3d)
 
 
+def _direction_in_plane(x, y, normal):
+    """Turn the XY direction (x, y) into the plane of a conic with this normal,
+    by the rotation the ``*_sample`` functions apply (z axis onto normal)."""
+    nx, ny, nz = normal[0], normal[1], normal[2]
+    s = (nx**2 + ny**2)**0.5
+    if s < 1e-10:
+        return [x, y if nz > 0 else -y, 0.0, 0.0]
+    kx, ky = -ny/s, nx/s        # rotation axis: z axis x normal
+    kdp = kx*x + ky*y
+    return [x*nz + kx*kdp*(1-nz), y*nz + ky*kdp*(1-nz), s*(kx*y - ky*x), 0.0]
+
+
 def ellipse_tangent(e, u):
     """Return the tangent vector at parameter u on an ellipse.
 
@@ -951,7 +963,7 @@ def ellipse_tangent(e, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _direction_in_plane(dx_rot/mag, dy_rot/mag, meta['normal'])
 
 
 def ellipse_length(e, segments=100):
@@ -1224,7 +1236,7 @@ def parabola_tangent(p, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _direction_in_plane(dx_rot/mag, dy_rot/mag, meta['normal'])
 
 
 def parabola_length(p, segments=100):
@@ -1512,7 +1524,7 @@ def hyperbola_tangent(h, u):
     if mag < 1e-10:
         return [1.0, 0.0, 0.0, 0.0]
 
-    return [dx_rot/mag, dy_rot/mag, 0.0, 0.0]
+    return _direction_in_plane(dx_rot/mag, dy_rot/mag, meta['normal'])
 
 
 def hyperbola_length(h, segments=100):
-- 
2.43.0


From 18f4fed709753d5c5d9a588b535e232e0705efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:12 +0000
Subject: [PATCH 102/145] fix: edges given by a bulge were evaluated as arcs
 that miss their vertices

---
 src/yapcad/native_brep.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index e8a8a2d..28d8c48 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -305,12 +305,11 @@ def evaluate_edge_curve(edge, start_point, end_point):
                 return line(start_point, end_point)
             radius = (chord_len*chord_len/4 + h*h) / (2*h)
 
-            # Center is offset from arc midpoint
-            center_offset = radius - h
+            # Center is one radius from the arc midpoint, towards the chord
             if bulge > 0:
-                center = sub(arc_mid, scale3(perp, center_offset))
+                center = sub(arc_mid, scale3(perp, radius))
             else:
-                center = add(arc_mid, scale3(perp, center_offset))
+                center = add(arc_mid, scale3(perp, radius))
 
             # Compute start/end angles
             start_angle = atan2(start_point[1] - center[1],
@@ -318,8 +317,11 @@ def evaluate_edge_curve(edge, start_point, end_point):
             end_angle = atan2(end_point[1] - center[1],
                              end_point[0] - center[0]) * 180 / pi
 
-            orientation = 1 if bulge > 0 else -1
-            return arc(center, [radius, start_angle, end_angle, orientation])
+            # An arc bulging to the left of the chord is traversed clockwise
+            if bulge > 0:
+                return arc(center, radius, end_angle, start_angle,
+                           samplereverse=True)
+            return arc(center, radius, start_angle, end_angle)
 
         elif 'center' in params:
             # Arc defined by center point
-- 
2.43.0


From fd8059de8f57177a690346a283400798d1b32ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:12 +0000
Subject: [PATCH 103/145] fix: clockwise arc edges were evaluated
 counter-clockwise

---
 src/yapcad/native_brep.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 28d8c48..f0a3adb 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -334,7 +334,10 @@ def evaluate_edge_curve(edge, start_point, end_point):
             end_angle = atan2(end_point[1] - center[1],
                              end_point[0] - center[0]) * 180 / pi
 
-            return arc(center, [radius, start_angle, end_angle, orientation])
+            if orientation < 0:
+                return arc(center, radius, end_angle, start_angle,
+                           samplereverse=True)
+            return arc(center, radius, start_angle, end_angle)
 
         else:
             # Default to line if no arc params
-- 
2.43.0


From d69bb785e2f6a06f8cdc618d2362551d07cc2ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:12 +0000
Subject: [PATCH 104/145] fix: void shells became outer shells when a B-rep
 graph was saved and loaded

---
 src/yapcad/native_brep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index f0a3adb..abaf509 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2188,6 +2188,7 @@ def _serialize_shell(s):
         'type': 'brep_shell',
         'face_ids': list(s[1]),
         'id': meta.get('id'),
+        'shell_type': meta.get('shell_type', 'outer'),
         'closed': meta.get('closed'),
         'solid_id': meta.get('solid_id'),
         'tags': meta.get('tags', {}),
@@ -2199,8 +2200,8 @@ def _deserialize_shell(data, face_map=None):
     face_refs = [face_map.get(fid) if face_map else fid
                  for fid in data.get('face_ids', [])]
 
-    s = brep_shell(face_refs, closed=data.get('closed'),
-                   tags=data.get('tags', {}))
+    s = brep_shell(face_refs, shell_type=data.get('shell_type', 'outer'),
+                   closed=data.get('closed'), tags=data.get('tags', {}))
     s[2]['id'] = data['id']
     if data.get('solid_id'):
         s[2]['solid_id'] = data['solid_id']
-- 
2.43.0


From c89b2c21d4a4c2531f2513ec9ca1e11108de67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 105/145] fix: B-rep edges lost their sense and tolerance when
 saved and loaded

---
 src/yapcad/native_brep.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index abaf509..35cf61f 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1837,6 +1837,8 @@ def _serialize_edge(e):
         'id': meta.get('id'),
         'start_vertex': meta.get('start_vertex_id'),  # Note: key is start_vertex_id in metadata
         'end_vertex': meta.get('end_vertex_id'),      # Note: key is end_vertex_id in metadata
+        'sense': meta.get('sense', True),
+        'tolerance': meta.get('tolerance', epsilon),
         'tags': meta.get('tags', {}),
     }
     # Serialize curve parameters
@@ -1920,6 +1922,9 @@ def _deserialize_edge(data, vertex_map=None):
 
     # Restore original ID
     e[2]['id'] = data['id']
+    e[2]['sense'] = bool(data.get('sense', True))
+    e[2]['tolerance'] = float(data.get('tolerance', epsilon))
+
     return e
 
 
-- 
2.43.0


From 1ea94cff118be694dc94b729405e10586902fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 106/145] fix: loaded B-rep graphs had lost which edges meet at
 a vertex and which faces share an edge

---
 src/yapcad/native_brep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 35cf61f..bd6ece9 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2288,7 +2288,7 @@ def deserialize_topology_graph(data):
     for eid, edata in data.get('edges', {}).items():
         edge = _deserialize_edge(edata, vertex_map=None)  # Use IDs directly
         edge_map[eid] = edge
-        graph.edges[edge[2]['id']] = edge
+        graph.add_edge(edge)
 
     # Deserialize trims (depend on edges)
     trim_map = {}
@@ -2309,7 +2309,7 @@ def deserialize_topology_graph(data):
     for fid, fdata in data.get('faces', {}).items():
         face = _deserialize_face(fdata)
         face_map[fid] = face
-        graph.faces[face[2]['id']] = face
+        graph.add_face(face)
 
     # Deserialize shells (depend on faces)
     shell_map = {}
-- 
2.43.0


From 4f8cb2ff0bd1f4a89f53288f9b4ca65761e52e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 107/145] fix: turning a native B-rep left cylinders, cones and
 tori at their old angle about their axis

---
 src/yapcad/native_brep.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index bd6ece9..f6f0930 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2529,16 +2529,22 @@ def _transform_surface_inplace(surface, transform_fn):
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'cone_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'torus_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'bspline_surface':
         # Control points are nested list
-- 
2.43.0


From e66b267a6e098489f5306a14f40a808515c7fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 108/145] fix: parameter directions of plane, cylinder, cone
 and torus faces changed when a B-rep graph was loaded

---
 src/yapcad/native_brep.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index f6f0930..af528ab 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2073,6 +2073,13 @@ def _serialize_surface_metadata(meta):
     return result
 
 
+def _restore_directions(surface, meta, keys):
+    """Restore stored parameter directions (the constructors choose their own)."""
+    for key in keys:
+        if meta.get(key):
+            surface[2][key] = [float(c) for c in meta[key]]
+
+
 def _deserialize_surface(data):
     """Reconstruct an analytic surface from serialized data."""
     from yapcad.analytic_surfaces import (
@@ -2092,9 +2099,11 @@ def _deserialize_surface(data):
     if surf_type == 'plane_surface':
         origin = _deserialize_point(data['origin'])
         normal = meta.get('normal', [0, 0, 1, 0])
-        return plane_surface(origin, normal,
+        surface = plane_surface(origin, normal,
                             u_range=tuple(meta.get('u_range', (-1, 1))),
                             v_range=tuple(meta.get('v_range', (-1, 1))))
+        _restore_directions(surface, meta, ('u_axis', 'v_axis'))
+        return surface
 
     elif surf_type == 'sphere_surface':
         center = _deserialize_point(data['center'])
@@ -2107,26 +2116,32 @@ def _deserialize_surface(data):
         origin = _deserialize_point(data['origin'])
         axis = meta.get('axis', [0, 0, 1, 0])
         radius = meta.get('radius', 1.0)
-        return cylinder_surface(origin, axis, radius,
+        surface = cylinder_surface(origin, axis, radius,
                                u_range=tuple(meta.get('u_range', (0, 2*pi))),
                                v_range=tuple(meta.get('v_range', (0, 1))))
+        _restore_directions(surface, meta, ('ref_direction',))
+        return surface
 
     elif surf_type == 'cone_surface':
         apex = _deserialize_point(data['apex'])
         axis = meta.get('axis', [0, 0, 1, 0])
         half_angle = meta.get('half_angle', pi/4)
-        return cone_surface(apex, axis, half_angle,
+        surface = cone_surface(apex, axis, half_angle,
                            u_range=tuple(meta.get('u_range', (0, 2*pi))),
                            v_range=tuple(meta.get('v_range', (0, 1))))
+        _restore_directions(surface, meta, ('ref_direction',))
+        return surface
 
     elif surf_type == 'torus_surface':
         center = _deserialize_point(data['center'])
         axis = meta.get('axis', [0, 0, 1, 0])
         major_radius = meta.get('major_radius', 2.0)
         minor_radius = meta.get('minor_radius', 0.5)
-        return torus_surface(center, axis, major_radius, minor_radius,
+        surface = torus_surface(center, axis, major_radius, minor_radius,
                             u_range=tuple(meta.get('u_range', (0, 2*pi))),
                             v_range=tuple(meta.get('v_range', (0, 2*pi))))
+        _restore_directions(surface, meta, ('ref_direction',))
+        return surface
 
     elif surf_type == 'bspline_surface':
         control_points = [[_deserialize_point(p) for p in row]
-- 
2.43.0


From 91e81a068f509f632f721acf9ad69209aa558a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 109/145] fix: scaling a native B-rep kept the length of
 cylinders, cones and planes and the radius of edges

---
 src/yapcad/native_brep.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index af528ab..8a55492 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2694,5 +2694,21 @@ def scale_native_brep(yapcad_solid, factor, center=None):
                 meta['major_radius'] = meta['major_radius'] * f
             if 'minor_radius' in meta:
                 meta['minor_radius'] = meta['minor_radius'] * f
+            # Parameters that are lengths scale too
+            if surface[0] == 'plane_surface':
+                lengths = ('u_range', 'v_range')
+            elif surface[0] in ('cylinder_surface', 'cone_surface'):
+                lengths = ('v_range',)
+            else:
+                lengths = ()
+            for key in lengths:
+                meta[key] = tuple(x * f for x in meta[key])
+
+    # ... and the radii of circular edges
+    for edge in graph.edges.values():
+        params = edge[2].get('curve_params') or {}
+        for key in ('radius', 'semi_major', 'semi_minor'):
+            if key in params:
+                params[key] = params[key] * f
 
     attach_native_brep_to_solid(yapcad_solid, graph)
-- 
2.43.0


From 0e04bde3228307b3967e3ecb6de427e7b7b771e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 110/145] fix: TopologyGraph.transform left circular and
 B-spline edges in place

---
 src/yapcad/native_brep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 8a55492..5006ead 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -508,7 +508,11 @@ def transform_edge_params(edge, transform_point_func):
     elif curve_type == 'ellipse' and 'center' in params:
         params['center'] = transform_point_func(params['center'])
 
-    elif curve_type == 'nurbs' and 'control_points' in params:
+    elif curve_type == 'circle' and 'center' in params:
+        params['center'] = transform_point_func(params['center'])
+        if 'axis' in params:
+            params['axis'] = _transform_vector(params['axis'], transform_point_func)
+    elif curve_type in ('nurbs', 'bspline') and 'control_points' in params:
         params['control_points'] = [
             transform_point_func(pt) for pt in params['control_points']
         ]
-- 
2.43.0


From cabdcade84dae35123fb6889c97eac52b2bc7e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 111/145] fix: points in a shell were judged outside when the
 test ray met a mesh edge

---
 src/yapcad/native_brep.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 5006ead..92f2777 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1587,22 +1587,26 @@ class TopologyGraph:
                 expanded_bbox[0][2] <= p[2] <= expanded_bbox[1][2]):
             return False
 
-        # Ray casting in +X direction
+        # Ray casting in a direction unlikely to run into mesh edges
         extent = max(bbox[1][0] - bbox[0][0],
                      bbox[1][1] - bbox[0][1],
                      bbox[1][2] - bbox[0][2])
         ray_length = extent * 2.0
 
-        direction = vect(1, 0, 0, 0)
-        far_point = point(p[0] + ray_length, p[1], p[2])
+        direction = vect(0.8191, 0.4673, 0.3331, 0)
+        far_point = point(p[0] + ray_length * direction[0],
+                          p[1] + ray_length * direction[1],
+                          p[2] + ray_length * direction[2])
 
         # Query octree for triangles along ray
         tree = self.shell_octree(shell_id)
         query_bbox = [
             point(min(p[0], far_point[0]) - tolerance,
-                  p[1] - tolerance, p[2] - tolerance),
+                  min(p[1], far_point[1]) - tolerance,
+                  min(p[2], far_point[2]) - tolerance),
             point(max(p[0], far_point[0]) + tolerance,
-                  p[1] + tolerance, p[2] + tolerance)
+                  max(p[1], far_point[1]) + tolerance,
+                  max(p[2], far_point[2]) + tolerance)
         ]
 
         if tree is None:
@@ -1616,17 +1620,19 @@ class TopologyGraph:
                 else:
                     candidates.append(elem)
 
-        # Count ray-triangle intersections
-        hits = 0
+        # Count ray-triangle intersections; a crossing at a shared edge or
+        # vertex is reported by every triangle there, but is only one
+        crossings = []
         for tri in candidates:
             result = self._ray_triangle_intersect(p, direction, tri, tolerance)
             if result is not None:
                 t, _ = result
-                if t > tolerance:  # Hit is in front of point
-                    hits += 1
+                if t > tolerance and all(abs(t - s) > epsilon
+                                         for s in crossings):
+                    crossings.append(t)  # Hit is in front of point
 
         # Odd number of hits = inside
-        return (hits % 2) == 1
+        return (len(crossings) % 2) == 1
 
     def _ray_triangle_intersect(self, origin, direction, tri, tolerance):
         """Ray-triangle intersection using Möller–Trumbore algorithm.
-- 
2.43.0


From fc19747a8eb7d69f3437d24f6980f9069a31bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:33 +0000
Subject: [PATCH 112/145] fix: voids around the outer shell were accepted and
 ring voids in rings rejected

---
 src/yapcad/native_brep.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 92f2777..681dbb9 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1768,24 +1768,22 @@ class TopologyGraph:
             outer_shell_id = shell_ids[0]
 
             for void_shell_id in shell_ids[1:]:
-                # Get a point on the void shell (center of bbox)
-                bbox = self.shell_bbox(void_shell_id)
-                if bbox is None:
+                # Get a point on the void shell. The shells do not meet, so
+                # it decides for all of the void; the center of the void's
+                # bbox would not (it may lie off the void, or inside the
+                # outer shell of a void that surrounds it)
+                mesh = self.tessellate_shell(void_shell_id)
+                if mesh is None:
                     continue
 
-                center = point(
-                    (bbox[0][0] + bbox[1][0]) / 2,
-                    (bbox[0][1] + bbox[1][1]) / 2,
-                    (bbox[0][2] + bbox[1][2]) / 2
-                )
+                test_point = mesh[1][mesh[3][0][0]]
 
-                # Void shell center should be inside outer shell
-                if not self.shell_contains_point(outer_shell_id, center,
+                if not self.shell_contains_point(outer_shell_id, test_point,
                                                   tolerance):
                     details['containment_violations'].append({
                         'void_shell': void_shell_id,
                         'outer_shell': outer_shell_id,
-                        'test_point': center,
+                        'test_point': test_point,
                     })
                     raise SolidValidationError(
                         f"Void shell {void_shell_id} is not contained "
-- 
2.43.0


From 85b6d3cf555cfe601cbb713eac5faa53d0cb685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 113/145] fix: polygons were triangulated in single precision

---
 src/yapcad/triangulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/triangulator.py b/src/yapcad/triangulator.py
index 30a6450..929395e 100644
--- a/src/yapcad/triangulator.py
+++ b/src/yapcad/triangulator.py
@@ -61,9 +61,9 @@ def triangulate_polygon(outer: Sequence[Sequence[float]],
             continue
         _append(loop)
 
-    vertices = np.asarray(point_map, dtype=np.float32)
+    vertices = np.asarray(point_map, dtype=np.float64)
     ring_array = np.asarray(ring_ends, dtype=np.uint32)
-    indices = _earcut.triangulate_float32(vertices, ring_array)
+    indices = _earcut.triangulate_float64(vertices, ring_array)
     triangles: List[List[Point2D]] = []
     for i in range(0, len(indices), 3):
         triangles.append([point_map[indices[i]],
-- 
2.43.0


From aa891740ef4245abc2c6c3346ef32bb84a6c18dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 114/145] fix: triangles of small or finely sampled polygons
 were dropped, leaving gaps

---
 src/yapcad/geom3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 959baa3..2fece62 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1232,7 +1232,7 @@ def surf2lines(surf):
 
     return lines
     
-def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0001,
+def poly2surface(ply,holepolys=[],minlen=0.5,minarea=epsilon/2.0,
                  checkclosed=False,basis=None):
 
     """Given ``ply``, a coplanar polygon, return the triangulated surface
@@ -1279,7 +1279,7 @@ def poly2surface(ply,holepolys=[],minlen=0.5,minarea=0.0001,
 
     return surf,bnd2
 
-def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=0.0001,
+def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=epsilon/2.0,
                    checkclosed=False,box=None):
     """Given ``ply``, return a triangulated XY surface (holes supported)."""
 
-- 
2.43.0


From 387fabf9aba82c67588727dcd7ab0203e6b5db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 115/145] fix: normals of clockwise polygons pointed against
 their faces

---
 src/yapcad/geom3d.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 2fece62..2a0734d 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -1315,7 +1315,7 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=epsilon/2.0,
         i = len(vertices)
         for p in poly:
             vertices.append(point(p))
-            normals.append([0,0,1,0])
+            normals.append([0,0,orientation,0])
             bndry.append(i)
             i+=1
         return bndry,vertices,normals
@@ -1326,6 +1326,11 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=epsilon/2.0,
     boundary=[]
     holes=[]
 
+    outer_area = sum(outer_loop[i][0]*outer_loop[(i+1)%len(outer_loop)][1]
+                     - outer_loop[(i+1)%len(outer_loop)][0]*outer_loop[i][1]
+                     for i in range(len(outer_loop)))
+    orientation = 1 if outer_area >= 0 else -1
+
     boundary,vrts,nrms = makeboundary(outer_loop,vrts,nrms)
     for loop in hole_loops:
         hole,vrts,nrms = makeboundary(loop,vrts,nrms)
@@ -1337,11 +1342,6 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=epsilon/2.0,
         (x1,y1),(x2,y2),(x3,y3) = tri
         return ((x2 - x1)*(y3 - y1) - (x3 - x1)*(y2 - y1)) / 2.0
 
-    outer_area = sum(outer_loop[i][0]*outer_loop[(i+1)%len(outer_loop)][1]
-                     - outer_loop[(i+1)%len(outer_loop)][0]*outer_loop[i][1]
-                     for i in range(len(outer_loop)))
-    orientation = 1 if outer_area >= 0 else -1
-
     for tri in triangles:
         tri_points = [point(x, y, 0, 1) for (x, y) in tri]
         area = _signed_triangle(tri)
@@ -1350,9 +1350,9 @@ def poly2surfaceXY(ply,holepolys=[],minlen=0.5,minarea=epsilon/2.0,
             area = -area
         if abs(area) > minarea:
             surf = addTri2Surface(tri_points,surf,
-                                  nfunc=lambda x: ([0,0,1,0],
-                                                   [0,0,1,0],
-                                                   [0,0,1,0]))
+                                  nfunc=lambda x: ([0,0,orientation,0],
+                                                   [0,0,orientation,0],
+                                                   [0,0,orientation,0]))
 
     return surf,[]
 
-- 
2.43.0


From 077c1d16f532aaf12430c2201feedbc85c9469f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 116/145] fix: surfaces whose faces index missing vertices were
 accepted

---
 src/yapcad/geom3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 2a0734d..5a7f9ff 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -583,8 +583,8 @@ def issurface(s,fast=True):
         l = len(verts)
         if l < 3:
             return False
-        return (len(list(filter(lambda x: not (isinstance(x,int) or
-                                               x < 0 or x >= l),
+        return (len(list(filter(lambda x: not (isinstance(x,int) and
+                                               0 <= x < l),
                                 inds))) == 0)
 
     if not isinstance(s,list) or len(s) not in (6,7) or s[0] != 'surface':
-- 
2.43.0


From ba7b0f3dbdd3b09f8ac65ac597f0baeade0a29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 117/145] fix: surface() took the holes for the boundary when
 the boundary is empty

---
 src/yapcad/geom3d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5a7f9ff..2bf4fcd 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -464,7 +464,7 @@ def surface(*args):
     for data-type correctness.
 
     """
-    if args==[]:
+    if not args:
         # empty surface
         return ['surface',[],[],[],[],[] ]
     if len(args) == 1:
@@ -485,15 +485,17 @@ def surface(*args):
             raise ValueError('bad arguments to surface')
 
         extras = list(args[3:])
+        lists = 0
         for item in extras:
             if isinstance(item, dict):
                 if metadata is not None:
                     raise ValueError('multiple metadata dictionaries passed to surface')
                 metadata = item
             elif isinstance(item, list):
-                if not bndr:
+                lists += 1
+                if lists == 1:
                     bndr = item
-                elif not hle:
+                elif lists == 2:
                     hle = item
                 else:
                     raise ValueError('too many list arguments passed to surface')
-- 
2.43.0


From 4c0fc3de52ba59a41af6ebaaa27cd1c9adfc9bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 118/145] fix: extruding against the normal of a surface turned
 the solid inside out

---
 src/yapcad/geom3d_util.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index b703487..0d5eeff 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1337,6 +1337,16 @@ def extrude(surf,distance,direction=vect(0,0,1,0)):
     if distance <= epsilon:
         raise ValueError('bad distance passed to extrude')
 
+    # the extruded side has to face along the direction of extrusion
+    if surf[3]:
+        tri = surf[3][0]
+        try:
+            _, facing = tri2p0n([surf[1][tri[0]], surf[1][tri[1]], surf[1][tri[2]]])
+            if dot(facing, direction) < 0:
+                surf = reversesurface(surf)
+        except ValueError:
+            pass
+
     s1 = translatesurface(surf,scale4(direction,distance))
     s2 = reversesurface(surf)
 
-- 
2.43.0


From 38ada8d306060a6907585bd91a0bd8990ce96629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 119/145] fix: the dodecahedron did not fit in the requested
 diameter

---
 src/yapcad/geom3d_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 0d5eeff..a0772e1 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -469,8 +469,9 @@ def dodecahedron(diameter, center=point(0,0,0)):
     
     phi = (1 + math.sqrt(5)) / 2  # Golden ratio ≈ 1.618
     
-    # Scale factor to fit within diameter
-    scale = diameter / (2 * phi)
+    # Scale factor to fit within diameter (the vertices below are at
+    # sqrt(3) from the origin)
+    scale = diameter / (2 * math.sqrt(3))
     
     # 20 vertices of a regular dodecahedron
     # Using standard golden ratio construction
-- 
2.43.0


From 8db0ccdff0633f5cad9b549af4e114a3f65f6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 120/145] fix: the rim of partial spherical shells was not
 sealed, and the openings were capped

---
 src/yapcad/geom3d_util.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index a0772e1..413507a 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -833,7 +833,7 @@ def _make_revolution_brep(contour, zStart, zEnd, steps):
         return None
 
 
-def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_error=None,max_chord=None,return_brep=False):
+def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_error=None,max_chord=None,return_brep=False,endcaps=True):
     """
     Generate a surface of revolution by sampling a contour function.
 
@@ -845,6 +845,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
                        If None (default), adaptive resolution is used.
     :param chord_error: (deprecated) maximum chord error/sagitta for legacy mode
     :param max_chord: maximum chord length in mm for adaptive resolution (default: size-adaptive)
+    :param endcaps: close ends with a non-zero radius with a flat disc (default True)
     :returns: ``['surface', vertices, normals, faces]`` list representing the surface
     """
 
@@ -982,7 +983,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
     # ── Flat disc caps for open ends (r > 0 at endpoints) ──────────
     # When the contour doesn't reach r=0 at zStart or zEnd, the surface
     # is open (a tube). Add flat disc caps to close it into a solid.
-    if not need_start_cap and r_start >= epsilon:
+    if endcaps and not need_start_cap and r_start >= epsilon:
         # Bottom disc cap: center vertex at (0,0,zStart), fan to first ring
         cap_center = [0.0, 0.0, zStart, 1.0]
         cap_normal = [0.0, 0.0, -1.0, 0.0]  # outward = -Z for bottom
@@ -997,7 +998,7 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
             # Wind CW from outside (looking at -Z face)
             sF.append([center_idx, k2, k1])
 
-    if not need_end_cap and r_end >= epsilon:
+    if endcaps and not need_end_cap and r_end >= epsilon:
         # Top disc cap: center vertex at (0,0,zEnd), fan to last ring
         cap_center = [0.0, 0.0, zEnd, 1.0]
         cap_normal = [0.0, 0.0, 1.0, 0.0]  # outward = +Z for top
@@ -1853,13 +1854,15 @@ def spherical_shell(outer_diameter, wall_thickness,
     outer_surface = makeRevolutionSurface(_sphere_contour(outer_radius),
                                           z_start_outer, z_end_outer,
                                           max(steps, lat_steps),
-                                          arcSamples=arc_samples)
+                                          arcSamples=arc_samples,
+                                          endcaps=False)
     outer_surface = translatesurface(outer_surface, point(center[0], center[1], 0))
 
     inner_surface = makeRevolutionSurface(_sphere_contour(inner_radius),
                                           z_start_inner, z_end_inner,
                                           max(steps, lat_steps),
-                                          arcSamples=arc_samples)
+                                          arcSamples=arc_samples,
+                                          endcaps=False)
     inner_surface = translatesurface(inner_surface, point(center[0], center[1], 0))
     inner_surface = reversesurface(inner_surface)
 
@@ -1869,13 +1872,16 @@ def spherical_shell(outer_diameter, wall_thickness,
         r_outer_ring = outer_radius * math.sin(theta)
         r_inner_ring = inner_radius * math.sin(theta)
 
-        base_outer = [point(center[0] + p[0], center[1] + p[1], cz + outer_radius * math.cos(theta), 1.0)
-                      for p in _circle_loop((0, 0), r_outer_ring, minang)[:-1]]
-        base_inner = [point(center[0] + p[0], center[1] + p[1], cz + inner_radius * math.cos(theta), 1.0)
-#                      for p in list(reversed(_circle_loop((0, 0), r_inner_ring, minang)))[:-1]]
-                      for p in _circle_loop((0, 0), r_inner_ring, minang)[:-1]]
+        # the rings have to match the ends of the surfaces above
+        def _ring(ring_radius, z):
+            return [point(center[0] + ring_radius * math.cos(pi2 * i / arc_samples),
+                          center[1] + ring_radius * math.sin(pi2 * i / arc_samples), z)
+                    for i in range(arc_samples)]
 
-        conic_surface = _loft_surface(base_outer, base_inner, invert=False)
+        base_outer = _ring(r_outer_ring, z_start_outer)
+        base_inner = _ring(r_inner_ring, z_start_inner)
+
+        conic_surface = _loft_surface(base_outer, base_inner, invert=True)
         surfaces.append(conic_surface)
 
     call = ("yapcad.geom3d_util.spherical_shell("
-- 
2.43.0


From b5a1951cc5e5ce46913e423b26bee91df20116e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:06 +0000
Subject: [PATCH 121/145] fix: lofted solids had no end caps, and clockwise
 loops turned them inside out

---
 src/yapcad/geom3d_util.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 413507a..5328e42 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1617,13 +1617,30 @@ def makeLoftSolid(lower_loop, upper_loop, *, metadata=None):
     Attempts to attach a native BREP when pythonocc-core is available,
     otherwise falls back to the tessellated representation.
     """
-    surf = _loft_surface(lower_loop, upper_loop)
+    # the side faces outwards for loops counter-clockwise about the
+    # direction from the lower to the upper loop
+    lower = [point(p) for p in lower_loop]
+    upper = [point(p) for p in upper_loop]
+    along = sub(scale3(reduce(add, upper, point(0, 0, 0)), 1.0 / max(len(upper), 1)),
+                scale3(reduce(add, lower, point(0, 0, 0)), 1.0 / max(len(lower), 1)))
+    facing = reduce(add, [cross(lower[i - 1], lower[i]) for i in range(len(lower))],
+                    point(0, 0, 0))
+    invert = dot(facing, along) < 0
+
+    surf = _loft_surface(lower_loop, upper_loop, invert=invert)
+    if invert:
+        upper.reverse()
+    else:
+        lower.reverse()
+    bottom, _ = poly2surface(lower)
+    top, _ = poly2surface(upper)
+
     call = f"yapcad.geom3d_util.makeLoftSolid(lower_loop, upper_loop)"
     construction = ['procedure', call]
     if metadata is not None and isinstance(metadata, dict):
-        sld = solid([surf], [], construction, metadata)
+        sld = solid([bottom, surf, top], [], construction, metadata)
     else:
-        sld = solid([surf], [], construction)
+        sld = solid([bottom, surf, top], [], construction)
 
     try:
         brep_shape = _loft_brep(lower_loop, upper_loop)
-- 
2.43.0


From ebc05acebc729b38c2f2ab0c5112d436bb708086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:06 +0000
Subject: [PATCH 122/145] fix: arcs with a normal that is not a unit vector
 were sampled off the circle

---
 src/yapcad/geom3d_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 5328e42..0e486ed 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -2093,6 +2093,8 @@ def _sample_arc_segment(center, start, end, normal, num_samples):
     """
     import math
 
+    normal = _normalize_vector(normal)
+
     # Compute arc angle
     r_start = _vector_subtract(start, center)
     r_end = _vector_subtract(end, center)
-- 
2.43.0


From 5997aed6ce0d104726cabddb461981f4d58f6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:06 +0000
Subject: [PATCH 123/145] fix: sweep_along_path passed arguments the sweeps do
 not take

---
 src/yapcad/geom3d_util.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 0e486ed..8ab9ca8 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -3584,9 +3584,20 @@ def sweep_along_path(profile, path, *, segments=32, metadata=None):
         # Assume it's a list of points
         path_poly = list(path)
 
+    # The sweeps take the path as a path3d and the profile as a region2d
+    spine = {'type': 'path3d',
+             'segments': [{'type': 'line', 'start': list(a[:3]), 'end': list(b[:3])}
+                          for a, b in zip(path_poly, path_poly[1:])]}
+    region = profile
+    if profile and all(ispoint(p) for p in profile):
+        corners = list(profile)
+        if not vclose(corners[0], corners[-1]):
+            corners.append(corners[0])
+        region = [[a, b] for a, b in zip(corners, corners[1:])]
+
     # Use adaptive sweep for better quality
     try:
-        return sweep_adaptive(profile, path_poly, threshold=5.0, metadata=metadata)
+        return sweep_adaptive(region, spine, angle_threshold_deg=5.0, metadata=metadata)
     except RuntimeError:
         # Fallback to basic sweep if OCC not available
-        return sweep_profile_along_path(profile, path_poly, metadata=metadata)
+        return sweep_profile_along_path(region, spine, metadata=metadata)
-- 
2.43.0


From 5238f8696509420b19134cbc5116986496cb9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:41 +0000
Subject: [PATCH 124/145] fix: contours were evaluated past the end of the
 interval of a surface of revolution

---
 src/yapcad/geom3d_util.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 8ab9ca8..5800517 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -855,13 +855,16 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
     zRange = zEnd-zStart
     zD = zRange/steps
 
+    # rounding must not carry the last sample past the end of the interval
+    def sample_z(i):
+        return zEnd if i == steps else i*zD+zStart
+
     # Use adaptive resolution if arcSamples not specified
     if arcSamples is None:
         # Sample the contour to find maximum radius
         max_radius = 0
         for i in range(steps + 1):
-            z = i * zD + zStart
-            r = contour(z)
+            r = contour(sample_z(i))
             max_radius = max(max_radius, r)
         arcSamples = adaptive_arc_segments(max_radius, chord_error=chord_error, max_chord=max_chord)
 
@@ -901,9 +904,10 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
         end_pole_idx, sV, sN = addVertex(pole_point, pole_normal, sV, sN)
 
     for i in range(steps):
-        z = i*zD+zStart
+        z = sample_z(i)
+        z1 = sample_z(i+1)
         r0 = contour(z)
-        r1 = contour(z+zD)
+        r1 = contour(z1)
 
         # Handle pole caps
         if i == 0 and need_start_cap:
@@ -914,8 +918,8 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
                 a1_idx = j
                 a2_idx = (j+1) % arcSamples
 
-                pp1 = [angle_cos[a1_idx]*r1, angle_sin[a1_idx]*r1, z+zD, 1.0]
-                pp2 = [angle_cos[a2_idx]*r1, angle_sin[a2_idx]*r1, z+zD, 1.0]
+                pp1 = [angle_cos[a1_idx]*r1, angle_sin[a1_idx]*r1, z1, 1.0]
+                pp2 = [angle_cos[a2_idx]*r1, angle_sin[a2_idx]*r1, z1, 1.0]
 
                 try:
                     _, n = tri2p0n([sV[start_pole_idx], pp2, pp1])
@@ -964,8 +968,8 @@ def makeRevolutionSurface(contour,zStart,zEnd,steps,arcSamples=None,*,chord_erro
             p1 = [angle_cos[a1_idx]*r0, angle_sin[a1_idx]*r0, z, 1.0]
             p2 = [angle_cos[a2_idx]*r0, angle_sin[a2_idx]*r0, z, 1.0]
 
-            pp1 = [angle_cos[a1_idx]*r1, angle_sin[a1_idx]*r1, z+zD, 1.0]
-            pp2 = [angle_cos[a2_idx]*r1, angle_sin[a2_idx]*r1, z+zD, 1.0]
+            pp1 = [angle_cos[a1_idx]*r1, angle_sin[a1_idx]*r1, z1, 1.0]
+            pp2 = [angle_cos[a2_idx]*r1, angle_sin[a2_idx]*r1, z1, 1.0]
 
             try:
                 p,n = tri2p0n([p0,p2,pp1])
-- 
2.43.0


From 444b9b1cde7cc90a2807db95b7505e0aa56d029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:57 +0000
Subject: [PATCH 125/145] fix: the last band of theta-sampled revolutions was
 left out when the profile ends on the axis

and the first one held faces with two corners in one place.
---
 src/yapcad/geom3d_util.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 5800517..cab9137 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1136,9 +1136,16 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
             v2 = [cos_b * r2, sin_b * r2, z2, 1.0]
             v3 = [cos_b * r3, sin_b * r3, z3, 1.0]
 
-            try:
-                _, n0 = tri2p0n([v1, v0, v2])
-            except ValueError:
+            # where the profile meets the axis two corners fall together,
+            # and one of the two triangles vanishes
+            normals = []
+            for tri in ([v1, v0, v2], [v2, v0, v3]):
+                try:
+                    normals.append(tri2p0n(tri)[1])
+                except ValueError:
+                    normals.append(None)
+            n0 = normals[0] or normals[1]
+            if n0 is None:
                 continue
 
             k0, sV, sN = addVertex(v0, n0, sV, sN)
@@ -1146,8 +1153,10 @@ def makeRevolutionThetaSamplingSurface(contour, zStart, zEnd, arcSamples=360,
             k2, sV, sN = addVertex(v2, n0, sV, sN)
             k3, sV, sN = addVertex(v3, n0, sV, sN)
 
-            sF.append([k0, k2, k1])
-            sF.append([k0, k3, k2])
+            if normals[0]:
+                sF.append([k0, k2, k1])
+            if normals[1]:
+                sF.append([k0, k3, k2])
 
     if endcaps:
         if need_start_cap and start_pole_idx is not None:
-- 
2.43.0


From ef3a9cd32003d36fe4b79ce61c48cd3b6d919faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:57 +0000
Subject: [PATCH 126/145] fix: radial patterns over a full turn backwards
 placed the last copy on the first

---
 src/yapcad/geom3d_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index cab9137..120ed2a 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -3268,7 +3268,7 @@ def radial_pattern_solid(solid_geom, count, center=None, axis=None, angle=None):
 
     # Calculate angle increment between copies
     # For a full 360 pattern, don't duplicate at start/end
-    if close(angle, 360.0):
+    if close(abs(angle), 360.0):
         angle_step = angle / count
     else:
         angle_step = angle / (count - 1) if count > 1 else 0
@@ -3376,7 +3376,7 @@ def radial_pattern_surface(surf, count, center=None, axis=None, angle=None):
         return [surf]
 
     # Calculate angle increment between copies
-    if close(angle, 360.0):
+    if close(abs(angle), 360.0):
         angle_step = angle / count
     else:
         angle_step = angle / (count - 1) if count > 1 else 0
-- 
2.43.0


From e878d342a9f671d7792756f1527582fb42aa3d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:31 +0000
Subject: [PATCH 127/145] fix: vertices in one place were duplicated where
 their coordinates round differently

---
 src/yapcad/geom3d_util.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 120ed2a..062b817 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -7,6 +7,7 @@ from yapcad.xform import *
 from yapcad.geom3d import *
 from yapcad.brep import attach_brep_to_solid, occ_available, BrepSolid
 
+import itertools
 import math
 
 """
@@ -193,31 +194,20 @@ def addVertex(nv,nn,verts,normals):
         vertexHash = {}
         _vertexHash_owner = owner_id
 
-    found = False
-    # Normalize tiny values to avoid "-0.00" != "0.00" hash key mismatch
-    x = 0.0 if abs(nv[0]) < epsilon else nv[0]
-    y = 0.0 if abs(nv[1]) < epsilon else nv[1]
-    z = 0.0 if abs(nv[2]) < epsilon else nv[2]
-    vkey = f"{x:.2f}{y:.2f}{z:.2f}"
-    if vkey in vertexHash:
-        found = True
-        inds = vertexHash[vkey]
-        valid_inds = []
-        for i in inds:
-            if i >= len(verts):
-                continue
-            if vclose(nv,verts[i]):
+    # vertices are hashed by cells of 0.01; near the border of a cell, a vertex
+    # in the same place may have been put in the neighbouring one
+    cells = [{math.floor((c - epsilon) * 100), math.floor((c + epsilon) * 100)}
+             for c in nv[:3]]
+    for vkey in itertools.product(*cells):
+        for i in vertexHash.get(vkey, ()):
+            if i < len(verts) and vclose(nv, verts[i]):
                 return i,verts,normals
-            valid_inds.append(i)
-        vertexHash[vkey] = valid_inds
-            
+
     verts.append(nv)
     normals.append(nn)
     i = len(verts)-1
-    if found:
-        vertexHash[vkey] += [ i ]
-    else:
-        vertexHash[vkey] = [ i ]
+    vkey = tuple(math.floor(c * 100) for c in nv[:3])
+    vertexHash.setdefault(vkey, []).append(i)
     return i,verts,normals
 
 def subdivide(f,verts,normals,rad):
-- 
2.43.0


From 92314d5f4e36a5283e6c4c5132e53bdd8b4856b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:01 +0000
Subject: [PATCH 128/145] fix: a line meets a plane given as a planar basis,
 and the whole plane of three points if not asked to stay inside

linePlaneIntersect documents four ways to name a plane, but refused a planar
basis (ValueError), and with inside=False it still dropped crossings outside
the triangle that named the plane.
---
 src/yapcad/geom3d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 2bf4fcd..e80dd3d 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -336,7 +336,7 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
             return sampleline(lne,u)
 
     # is the plane specified symbolicaly?
-    trangle = False
+    triangle = False
     idx = -1
     if plane=="xy":
         idx=2
@@ -349,13 +349,15 @@ def linePlaneIntersect(lne,plane="xy",inside=True):
         return lineCardinalPlaneIntersect(lne,idx,inside)
     else:
         if istriangle(plane):
-            triangle = True
+            triangle = inside # else the points only name the plane
             tri = plane
             plane = tri2p0n(plane,basis=True)
             tri2 = [ plane[2].mul(tri[0]),
                      plane[2].mul(tri[1]),
                      plane[2].mul(tri[2]) ]
-        else:
+        elif not (isinstance(plane,(list,tuple)) and len(plane) == 4
+                  and isinstance(plane[2],xform.Matrix)
+                  and isinstance(plane[3],xform.Matrix)):
             raise ValueError('non-plane passed to linePlaneIntersect')
         # otherwise assume that plane is a valid planar basis
 
-- 
2.43.0


From ce5fec97fbd6f04ed3de995204d3205dd4b552b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 129/145] fix: a figure that was moved or changed kept
 reporting the surface it had before

---
 src/yapcad/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 38dacd5..4e878a0 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -555,6 +555,8 @@ class Geometry:
     def _setUpdate(self,bln):
         """method to set status of __update, accessible from derived classes"""
         self.__update = bln
+        if bln:
+            self._clearSurfaceCache() # the figure changed, and so did its surface
 
     @update.setter
     def update(self,bln):
-- 
2.43.0


From 5d100c27ac411c33af1decaea4b03c6e2eccc723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 130/145] fix: mirroring a solid figure without BREP data left
 it where it was

---
 src/yapcad/geometry.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 4e878a0..2584725 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -440,15 +440,16 @@ class Geometry:
 
         """
         if issolid(self.__elem, fast=False):
-            try:
-                from yapcad.brep import mirror_brep_solid
-                mirror_brep_solid(self.__elem, plane)
-                self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
-                self._clearSurfaceCache()
-                self._setUpdate(True)
-                return
-            except Exception:
-                pass
+            if _GEOMETRY_HAVE_OCC and has_brep_data(self.__elem):
+                try:
+                    from yapcad.brep import mirror_brep_solid
+                    mirror_brep_solid(self.__elem, plane)
+                    self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
+                    self._clearSurfaceCache()
+                    self._setUpdate(True)
+                    return
+                except Exception:
+                    pass
             from yapcad.geom3d import mirror as mirror_solid
             self._setElem(mirror_solid(self.__elem, plane))
             self._setUpdate(True)
-- 
2.43.0


From 3759cbe2766ec54642aca7cab5848826106e1260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 131/145] fix: mirroring a figure that is a single point or arc
 raised an error

---
 src/yapcad/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 2584725..4af954a 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -468,7 +468,10 @@ class Geometry:
             return
         nelm = mirror(self.__elem,plane)
         if keepSign:
-            nelm = reverseGeomList(nelm)
+            if ispoint(nelm) or isarc(nelm):
+                nelm = reverseGeomList([nelm])[0]
+            else:
+                nelm = reverseGeomList(nelm)
         self._setElem(nelm)
         self._setUpdate(True)
 
-- 
2.43.0


From 00fb9cd78bc83fbec859050c8acdb67c3a6873a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 132/145] fix: scaling a solid figure dropped its material and
 metadata, and kept the normals when turning it inside out

---
 src/yapcad/geometry.py | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 4af954a..ba1e6a5 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -351,33 +351,14 @@ class Geometry:
                 raise NotImplementedError("Solid scaling currently supports uniform factors only")
             if sz not in (False, None) and not close(sz, sx):
                 raise NotImplementedError("Solid scaling currently supports uniform factors only")
-            if has_brep_data(self.__elem):
+            if _GEOMETRY_HAVE_OCC and has_brep_data(self.__elem):
                 scale_brep_solid(self.__elem, sx, cent)
                 self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
                 self._clearSurfaceCache()
                 self._setUpdate(True)
                 return
-            # fallback: scale vertices of each surface (uniform only)
-            def _scale_point(p):
-                return point(
-                    cent[0] + sx * (p[0] - cent[0]),
-                    cent[1] + sx * (p[1] - cent[1]),
-                    cent[2] + sx * (p[2] - cent[2]),
-                )
-            new_surfaces = []
-            for surf in self.__elem[1]:
-                new_pts = [_scale_point(v) for v in surf[1]]
-                new_surf = [new_pts, list(deepcopy(surf[2])), list(deepcopy(surf[3]))]
-                # boundaries/holes/metadata if present
-                if len(surf) > 4:
-                    new_surf.append(deepcopy(surf[4]))
-                if len(surf) > 5:
-                    new_surf.append(deepcopy(surf[5]))
-                if len(surf) > 6:
-                    new_surf.append(deepcopy(surf[6]))
-                new_surfaces.append(new_surf)
-            meta = self.__elem[3] if len(self.__elem) > 3 else []
-            self._setElem(['solid', new_surfaces, [] , meta])
+            self._setElem(scalesolid(self.__elem, sx, cent=cent))
+            self._clearSurfaceCache()
             self._setUpdate(True)
             return
         if is_brep(self.__elem):
-- 
2.43.0


From 7d9429ba50080acefffd0246ec4f8c7a29c77c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 133/145] fix: the segment of a figure that is a single line,
 arc or polyline was empty or raised an error

---
 src/yapcad/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index ba1e6a5..ae7c63e 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -639,6 +639,8 @@ class Geometry:
         gl = self.geom
         if gl == []:
             raise ValueError('empty Boolean, segment not defined')
+        if isline(gl) or isarc(gl) or ispoly(gl):
+            gl = [gl]
         return segmentgeomlist(gl,u1,u2,closed=self.closed,reverse=reverse)
 
     def intersectXY(self,g,inside=True,params=False):
-- 
2.43.0


From 824aa101eb85d640bb587c4a9d7d079ef58388e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:16 +0000
Subject: [PATCH 134/145] fix: length, center, bbox and sampling of a Boolean
 raised an error until its geometry was read

---
 src/yapcad/combine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/combine.py b/src/yapcad/combine.py
index 3054d28..04f3935 100644
--- a/src/yapcad/combine.py
+++ b/src/yapcad/combine.py
@@ -91,6 +91,9 @@ class Boolean(Geometry):
 
             return scale3(p,1/l)
 
+    def _updateInternals(self):
+        self.geom # computing the outline sets length, center and bbox
+
     def translate(self,delta):
         self._setUpdate(True)
         for p in self.elem:
-- 
2.43.0


From a7c6c90031eacc276a8c7b74006184ea687a946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:18 +0000
Subject: [PATCH 135/145] fix: scaling a surface or solid by a negative factor
 turned it inside out

---
 src/yapcad/geom3d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index e80dd3d..5c27f9c 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -729,6 +729,12 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
             length = (n_scaled[0]**2 + n_scaled[1]**2 + n_scaled[2]**2)**0.5
             if length > 1e-10:
                 s2[2][i] = vect(n_scaled[0]/length, n_scaled[1]/length, n_scaled[2]/length, 0)
+    elif sx < 0:
+        # every direction is turned around
+        s2[2] = list(map(lambda n: [-n[0], -n[1], -n[2], n[3]], s2[2]))
+    if sx * sy * sz < 0:
+        # a reflection reverses the winding
+        s2[3] = list(map(lambda f: [f[0], f[2], f[1]], s2[3]))
     return s2
 
 def solid(*args):
-- 
2.43.0


From 0d54f983c98455cc379ec37e68da7394facf541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:18 +0000
Subject: [PATCH 136/145] fix: scaling an arc by a negative factor gave it a
 negative radius

---
 src/yapcad/geom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 612e7fe..938d405 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4152,7 +4152,10 @@ def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
         if not close(sx,sy):
             raise ValueError('asymmetric scaling of XY-plane arcs not allowed')
         c[0] = mat.mul(x[0])
-        c[1][0] *= sx
+        c[1][0] *= abs(sx)
+        if sx < 0 and not iscircle(x): # a half turn in the plane
+            c[1][1] += 180.0
+            c[1][2] += 180.0
         return c
 
     elif ispoly(x):
-- 
2.43.0


From 41e5fbeaa5ba642abd748ea7162c451b2913cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:42 +0000
Subject: [PATCH 137/145] fix: scaling a B-rep graph by a negative factor gave
 it negative radii

---
 src/yapcad/native_brep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 681dbb9..3b6c51f 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2691,6 +2691,9 @@ def scale_native_brep(yapcad_solid, factor, center=None):
 
     transform_topology_graph(graph, scale_point)
 
+    # Directions have been turned around by a negative factor, sizes stay positive
+    f = abs(f)
+
     # Also update radii in surfaces
     for fid, face in graph.faces.items():
         surface = face[1]
-- 
2.43.0


From 8061ae509a5bfa1b3e2346f0e845db5f8fcc22fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:02 +0000
Subject: [PATCH 138/145] fix: a planar radial pattern over minus a full turn
 repeated its first copy

---
 src/yapcad/geom_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 63616ad..384b34f 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -953,7 +953,7 @@ def radial_pattern(geometry, count, center=None, axis=None, angle=None):
 
     # Calculate angle increment between copies
     # For a full 360 pattern, don't duplicate at start/end
-    if abs(angle - 360.0) < epsilon:
+    if abs(abs(angle) - 360.0) < epsilon:
         angle_step = angle / count
     else:
         angle_step = angle / (count - 1)
-- 
2.43.0


From b041315041fee6b9a52265db645c28de370142db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:51 +0000
Subject: [PATCH 139/145] fix: bolt patterns turned by a whole hole spacing
 were reported misaligned

---
 src/yapcad/assembly/mate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/mate.py b/src/yapcad/assembly/mate.py
index e5eeb2c..a5991a6 100644
--- a/src/yapcad/assembly/mate.py
+++ b/src/yapcad/assembly/mate.py
@@ -1353,7 +1353,8 @@ def check_bolt_circle_alignment(
 
     # Calculate hole positions
     hole_spacing = 360.0 / hole_count
-    offset_rad = math.radians(angular_offset_deg)
+    # a pattern turned by whole hole spacings coincides with itself
+    offset_rad = math.radians(math.remainder(angular_offset_deg, hole_spacing))
 
     max_hole_error = 0.0
     hole_errors = []
-- 
2.43.0


From 2c9001982906cee489a6a68262996c99a0751347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:31 +0000
Subject: [PATCH 140/145] fix: a statement after a comment on its line was not
 parsed as part of its block

---
 src/yapcad/dsl/lexer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/lexer.py b/src/yapcad/dsl/lexer.py
index f7e1fec..eea65d9 100644
--- a/src/yapcad/dsl/lexer.py
+++ b/src/yapcad/dsl/lexer.py
@@ -171,6 +171,11 @@ class Lexer:
                 indent += 1  # Simple approach: tab = 1 indent unit
             self._advance()
 
+        # Code after a comment is indented where the comment starts
+        while self._peek() == '/' and self._peek(1) == '*':
+            self._skip_multiline_comment()
+            self._skip_whitespace_within_line()
+
         # Skip blank lines and comment-only lines
         if self._peek() == '\n' or self._peek() == '\0':
             self.at_line_start = True
@@ -178,10 +183,6 @@ class Lexer:
         if self._peek() == '#':
             self._skip_comment()
             return None
-        if self._peek() == '/' and self._peek(1) == '*':
-            self._skip_multiline_comment()
-            # After multiline comment, check if we're at line start again
-            return None
 
         self.at_line_start = False
 
-- 
2.43.0


From b219c60f0b44b449b66132704d0657b9007d899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:52 +0000
Subject: [PATCH 141/145] fix: text after a string or comment over several
 lines was taken for a new line

---
 src/yapcad/dsl/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/dsl/lexer.py b/src/yapcad/dsl/lexer.py
index eea65d9..cec7ab6 100644
--- a/src/yapcad/dsl/lexer.py
+++ b/src/yapcad/dsl/lexer.py
@@ -275,6 +275,7 @@ class Lexer:
                 self._advance()
                 self._advance()
                 value = ''.join(chars)
+                self.at_line_start = False  # a line break within is no line start
                 return self._make_token(TokenType.STRING_LITERAL, value, start)
 
             ch = self._peek()
@@ -480,6 +481,7 @@ class Lexer:
                 self._skip_comment()
             else:
                 self._skip_multiline_comment()
+                self.at_line_start = False  # a line break within is no line start
             self._skip_whitespace_within_line()
 
         # Check for newline
-- 
2.43.0


From 3c1258c198318c2443b65d406edc043e28b791f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:09 +0000
Subject: [PATCH 142/145] fix: unified threads were cut in proportion to the
 square of the pitch

---
 src/yapcad/threadgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/threadgen.py b/src/yapcad/threadgen.py
index b8a6ae2..232928d 100644
--- a/src/yapcad/threadgen.py
+++ b/src/yapcad/threadgen.py
@@ -51,7 +51,7 @@ def unified_profile(d_nominal_in: float, tpi: float, *, strts: int=1, internal:
     pitch = 25.4 / tpi
     crest = 1.0 / 8.0
     root = 1.0 / 4.0 if not internal else 1.0 / 8.0
-    depth_ratio = 0.64952 * pitch
+    depth_ratio = 0.64952  # of the pitch
     return ThreadProfile(
         D_nominal=d_nominal_in * 25.4,
         P_pitch=pitch,
-- 
2.43.0


From 4f4ead61e26f7e2466bbe043bb0aabe41eb17275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:09 +0000
Subject: [PATCH 143/145] fix: the allowance of unified bolt threads was
 ignored

---
 src/yapcad/fasteners/builders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/fasteners/builders.py b/src/yapcad/fasteners/builders.py
index 6e7a806..53cbb59 100644
--- a/src/yapcad/fasteners/builders.py
+++ b/src/yapcad/fasteners/builders.py
@@ -65,7 +65,8 @@ def _make_profile_from_catalog(
         )
     else:
         # External thread: apply es (upper deviation, negative for g position)
-        es = tolerances.get("es", 0.0)
+        # (unified classes state it as an allowance below nominal)
+        es = tolerances.get("es", -tolerances.get("allowance", 0.0))
         # Td2 is pitch diameter tolerance, Td is major diameter tolerance
         td2 = tolerances.get("Td2", 0.0)
         td = tolerances.get("Td", 0.0)
-- 
2.43.0


From f32f68d6705a3bcdfb57aabd1b06c34bcf1e9596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:01 +0000
Subject: [PATCH 144/145] fix: items added to an n-tree with the tag 0 lost it

---
 src/yapcad/octtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 8240ccd..c34a94b 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -426,7 +426,7 @@ class NTree():
         the tree -- yet """
         if not isgeomlist(element):
             raise ValueError('bad element passed to addElement')
-        if not tag:
+        if tag is None:
             gl = [ element ]
         else:
             gl = [ (element,tag) ]
-- 
2.43.0


From 08962fab7da04a3ef7da9095924f78eface8890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:35 +0000
Subject: [PATCH 145/145] fix: Euler angles of a pose were extracted in the
 reverse of the declared order

---
 src/yapcad/kinematics/transform.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/yapcad/kinematics/transform.py b/src/yapcad/kinematics/transform.py
index 5563a03..898ba05 100644
--- a/src/yapcad/kinematics/transform.py
+++ b/src/yapcad/kinematics/transform.py
@@ -301,16 +301,16 @@ class Transform:
         R = self.matrix[:3, :3]
 
         # Extract angles using atan2 for robustness
-        sy = math.sqrt(R[0, 0] ** 2 + R[1, 0] ** 2)
+        cy = math.sqrt(R[0, 0] ** 2 + R[0, 1] ** 2)
 
-        if sy > 1e-6:
-            rx = math.atan2(R[2, 1], R[2, 2])
-            ry = math.atan2(-R[2, 0], sy)
-            rz = math.atan2(R[1, 0], R[0, 0])
+        if cy > 1e-6:
+            rx = math.atan2(-R[1, 2], R[2, 2])
+            ry = math.atan2(R[0, 2], cy)
+            rz = math.atan2(-R[0, 1], R[0, 0])
         else:
             # Gimbal lock
-            rx = math.atan2(-R[1, 2], R[1, 1])
-            ry = math.atan2(-R[2, 0], sy)
+            rx = math.atan2(R[2, 1], R[1, 1])
+            ry = math.atan2(R[0, 2], cy)
             rz = 0
 
         return (
-- 
2.43.0

