From f291119833a1d08c46389d85b3cf23f7c45c79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 01/71] fix: keep with fixed hyperparameters in NestedSampler
 raised IndexError

---
 BayesicFitting/source/NestedSampler.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index a8efa2b..8ae40a6 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -537,16 +537,13 @@ class NestedSampler( object ):
 
         nh = self.distribution.nphypar
         if keep is not None :
-            fitl = []
-            kkeys = list( keep.keys() )
-            for k in range( np + nh ) :
-                if k in kkeys :
+            npt = np + nh
+            kept = []
+            for k in keep.keys() :
+                if -nh <= k < npt :
                     allpars[k] = keep[k]                    # save keep.value in allpars
-                elif fitlist[k] in kkeys :
-                    allpars[k] = keep[fitlist[k]]           # save keep.value in allpars
-                else :
-                    fitl += [fitlist[k]]                    # list of pars to be fitted
-            fitlist = fitl
+                    kept += [k % npt]                       # position in allpars
+            fitlist = [k for k in fitlist if not ( k % npt ) in kept]   # list of pars to be fitted
 
         return ( fitlist, allpars )
 
-- 
2.43.0


From ad0a0f30f80ec85f4f5dc7af95526a51b892d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 02/71] fix: SampleList.weed removes the sample with the lowest
 weight, as documented

---
 BayesicFitting/source/SampleList.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 563b888..d6ccd93 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -270,10 +270,7 @@ class SampleList( list ):
             return
 
         while len( self ) > maxsize :
-            if self[0].logW < self[-1].logW :
-                self.remove( self[0] )
-            else :
-                self.remove( self[-1] )
+            del self[numpy.argmin( self.getLogWeightEvolution() )]
         return
 
 
-- 
2.43.0


From f97eaf72b749bbc41e1414c1fd7ea37a498bc024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 03/71] fix: final update of NestedSampler: sorted walkers,
 information from their own logL, logZ in SampleList, maxsize obeyed

---
 BayesicFitting/source/NestedSampler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 8ae40a6..da22f80 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -467,10 +467,13 @@ class NestedSampler( object ):
 
 
         # End of Sampling: Update and store the remaining walkers
+        self.walkers.sort( key=self.walkerLogL )    # the last ones moved are out of order
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
+        self.samples.weed( self.maxsize )           # remove overflow in samplelist
+
         # Calculate weighted average and stdevs for the parameters;
-        self.samples.LogZ = self.logZ
+        self.samples.logZ = self.logZ
         self.samples.info = self.info
         self.samples.normalize( )
 
@@ -760,13 +763,14 @@ class NestedSampler( object ):
         """
 
         for kw in range( worst ) :
-            logWeight = self.logWidth + self.walkers[kw].logL + self.walkers[kw].logPrior
+            logL = self.walkers[kw].logL + self.walkers[kw].logPrior
+            logWeight = self.logWidth + logL
 
             # update evidence, logZ
             logZnew = numpy.logaddexp( self.logZ, logWeight )
 
             # update Information, H
-            self.info = ( math.exp( logWeight - logZnew ) * self.lowLhood +
+            self.info = ( math.exp( logWeight - logZnew ) * logL +
                     math.exp( self.logZ - logZnew ) * ( self.info + self.logZ ) - logZnew )
 
             if math.isnan( self.info ) :
-- 
2.43.0


From 3fd6df7993aae63e9836d1c2bca11122e862dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 04/71] fix: StartEngine lost the fixed hyperparameters of
 dynamic models

---
 BayesicFitting/source/StartEngine.py | 30 +++++++++++-----------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index d059b18..4179293 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -92,38 +92,32 @@ class StartEngine( Engine ):
         fitIndex = walker.fitIndex
         allp = walker.allpars.copy()
 
-        npar = len( allp )
-        onp = problem.npars
-
         maxtrials = self.maxtrials
         if hasattr( self.errdis, "constrain" ) and callable( self.errdis.constrain ) :
             maxtrials *= 100
 
+        isdynamic = model.isDynamic()
+        if isdynamic :
+            ## find the model in the chain that is actually dynamic
+            off = 0
+            while model is not None and not isinstance( model, Dynamic ) :
+                off += model.npbase
+                model = model._next
+
         ktry = 0
         while True :
 
-            if model.isDynamic() :
-                np0 = model.npars
-                off = 0
-
-                ## find the model in the chain that is actually dynamic
-                while model is not None and not isinstance( model, Dynamic ) :
-                    off += model.npbase
-                    model = model._next
-
-
+            if isdynamic :
 #                print( "SE   ", model.ncomp, model.maxComp, self.errdis )
                 npbase = model.npbase
                 ## Grow the dynamic model a number of times according to growPrior
                 while ( model.ncomp < model.growPrior.unit2Domain( self.rng.rand() ) and
                         model.grow( offset=off, rng=self.rng ) ) :
-                    np1 = model.npars
-                    dnp = np1 - np0
+                    dnp = model.npbase - npbase
                     fitIndex = model.alterFitindex( fitIndex, npbase, dnp, off )
+                    ## make room for the new parameters; keep the fixed ones
+                    allp = numpy.insert( allp, off + npbase, numpy.zeros( dnp ) )
                     npbase = model.npbase
-                    np0 = np1
-
-                allp = numpy.zeros( npar + np0 - onp, dtype=float )
 
             uval = self.rng.rand( len( fitIndex ) )
 
-- 
2.43.0


From 8e11cbb0383194c6d490d00787b3f27e260f74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 05/71] fix: best walker boost overwrote live parameters and
 ignored keep, priors and number of hyperparameters

---
 BayesicFitting/source/Engine.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index 11ce21f..b2e3cc3 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -200,7 +200,7 @@ class Engine( object ):
         """
         wlist = self.phantoms.getList( walker )
 
-        if wlist is None or wlist[-1].logL >= walker.logL :
+        if wlist is None or len( wlist ) == 0 or wlist[-1].logL >= walker.logL :
             return
 
 #        print( "Best   ", fmt( walker.logL ) )
@@ -208,20 +208,23 @@ class Engine( object ):
 
         problem = walker.problem
         nh = self.errdis.nphypar
-        par0 = walker.allpars[:-nh]
+        np = problem.npars
+        fi = walker.fitIndex
+        ptry = walker.allpars.copy()
+        keep = {k : ptry[k] for k in range( np ) if k not in fi}
         try :
             self.fitter.model = problem.model
-            pars = self.fitter.fit( problem.ydata, par0=par0 )
-        except :
+            ptry[:np] = self.fitter.fit( problem.ydata, par0=ptry[:np].copy(),
+                                         keep=None if len( keep ) == 0 else keep )
+            if nh > 0 and -nh in fi :
+                ptry[-nh] = self.fitter.getScale()
+            uval = self.domain2Unit( problem, ptry[fi], kpar=fi )
+            if not numpy.all( ( uval > 0 ) & ( uval < 1 ) ) :
+                return                          # outside the prior
+            ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
+        except Exception :
             return
 
-        if nh == 0 :
-            ptry = pars
-        elif walker.fitIndex[-1] == -1 :
-            ptry = numpy.append( pars, self.fitter.getScale() )
-        else :
-            ptry = numpy.append( pars, walker.allpars[-1] )
-
         Ltry = self.errdis.logLikelihood( problem, ptry )
 
         if Ltry > walker.logL :
-- 
2.43.0


From a92eab4aa61bb5aa50e8c0f16ac7daf0cb61771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 06/71] fix: copymode from phantoms looped for ever without
 phantoms above the threshold; Fitter class in bestBoost was ignored

---
 BayesicFitting/source/NestedSampler.py | 29 ++++++++++----------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index da22f80..04edb58 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -813,12 +813,12 @@ class NestedSampler( object ):
             number of Walkers to copy
         """
         plen = self.phantoms.length()
+        pmin = self.phantoms.phantoms.firstIndex( self.lowLhood )
+        if plen == 0 or pmin == plen :              # no phantoms above lowLhood
+            return NestedSampler.copyWalker( self, worst )
 
         for k in range( worst ) :
-            while True :
-                kcp = self.rng.randint( plen )
-                if self.phantoms.phantoms[kcp].logL > self.lowLhood :
-                    break
+            kcp = self.rng.randint( pmin, plen )
             self.walkers.copy( kcp, k, wlist=self.phantoms.phantoms,
                                start=self.iteration )
 #            setatt( self.walkers[k], "parent", kcp )
@@ -833,20 +833,13 @@ class NestedSampler( object ):
         worst : int
             number of Walkers to copy
         """
-        plen = self.phantoms.length()
-        for k in range( worst ) :
-            while True :
-                kcp = self.rng.randint( plen )
-    
-                for pk in self.phantoms.phantoms.keys() :
-                    pklen = self.phantoms.length( np=pk )
-                    if kcp < pklen :
-                        break
-                    kcp -= pklen
-
-                if self.phantoms.phantoms[pk][kcp].logL > self.lowLhood :
-                    break
+        above = [( pk, kcp ) for pk, phl in self.phantoms.phantoms.items()
+                 for kcp in range( phl.firstIndex( self.lowLhood ) or 0, len( phl ) )]
+        if len( above ) == 0 :                      # no phantoms above lowLhood
+            return NestedSampler.copyWalker( self, worst )
 
+        for k in range( worst ) :
+            pk, kcp = above[self.rng.randint( len( above ) )]
             self.walkers.copy( kcp, k, wlist=self.phantoms.phantoms[pk],
                                start=self.iteration )
 #            setatt( self.walkers[k], "parent", kcp )
@@ -885,7 +878,7 @@ class NestedSampler( object ):
                 self.copyWalker = self.copyWalkerFromDynamicPhantoms
             else :
                 self.copyWalker = self.copyWalkerFromPhantoms
-        elif name == "bestUpdate" :
+        elif name == "bestBoost" :
 
             self.myFitter = None
             if Tools.subclassof( value, BaseFitter ) :
-- 
2.43.0


From 37ff53702ac7abcf903ff19c5afbf05f336db51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 07/71] fix: WalkerList.insertWalker on an empty list changed
 the id of the walker

---
 BayesicFitting/source/WalkerList.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 75e75b2..214e49f 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -179,7 +179,8 @@ class WalkerList( list ):
         """
         klow = self.firstIndex( walker.logL )
         if klow is None :
-            self.setWalker( walker, 0 )
+            self.append( walker )               # keep its id: it might be a live walker too
+            self._count += 1
             return self
 
         cnt = self._count
-- 
2.43.0


From 12ab58b156864d91cf637aba15e304a24aee3cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 08/71] fix: PhantomCollection is safe under threads; range of
 an empty collection

---
 BayesicFitting/source/PhantomCollection.py | 55 ++++++++++++++--------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/BayesicFitting/source/PhantomCollection.py b/BayesicFitting/source/PhantomCollection.py
index c88c940..c56fafb 100644
--- a/BayesicFitting/source/PhantomCollection.py
+++ b/BayesicFitting/source/PhantomCollection.py
@@ -1,5 +1,6 @@
 import numpy as numpy
 import math
+from threading import RLock
 
 from .Walker import Walker
 from .WalkerList import WalkerList
@@ -76,20 +77,31 @@ class PhantomCollection( object ):
             whether it is a dynamic model
         """
         self.minpars = self.MINPARS
-        self.ncalls = 0
-            
+        self.dynamic = dynamic
+        self.lock = RLock()             # the collection is shared by all exploring threads
+        self.clear()
+
         if dynamic :
-            self.phantoms = {}
-            self.lowLhood = {}
-            self.paramMax = {}
-            self.paramMin = {}
             self.getList = self.getDynamicList
             self.getParamMinmax = self.getDynamic
             self.storeItems = self.storeDynamic
             self.length = self.lengthDynamic
+
+    def clear( self ) :
+        """
+        Remove all items.
+        """
+        self.ncalls = 0
+        if self.dynamic :
+            self.phantoms = {}
+            self.lowLhood = {}
+            self.paramMax = {}
+            self.paramMin = {}
         else :
             self.phantoms = WalkerList( )
             self.lowLhood = -math.inf
+            self.paramMax = None
+            self.paramMin = None
 
     def __str__( self ):
         """ Return the name of this object.  """
@@ -128,8 +140,9 @@ class PhantomCollection( object ):
         walker : Walker
             to be added to the PhantomCollection
         """
-        self.ncalls += 1
-        self.phantoms = self.phantoms.insertWalker( walker )
+        with self.lock :
+            self.ncalls += 1
+            self.phantoms = self.phantoms.insertWalker( walker )
 
     def calculateParamMinmax( self, lowLhood, np=0 ):
         """
@@ -167,10 +180,11 @@ class PhantomCollection( object ):
             number of parameters (not used in this implementation)
 
         """
-        if lowLhood > self.lowLhood :
-            self.calculateParamMinmax( lowLhood, np=np )
+        with self.lock :
+            if lowLhood > self.lowLhood :
+                self.calculateParamMinmax( lowLhood, np=np )
 
-        return ( self.paramMin, self.paramMax )
+            return ( self.paramMin, self.paramMax )
 
     ##  Dynamic methods
 
@@ -184,7 +198,8 @@ class PhantomCollection( object ):
             number of parameters (in case of dynamic only)
         """
         if np is None :
-            return numpy.sum( [len( ph ) for ph in self.phantoms.values()] )
+            with self.lock :
+                return numpy.sum( [len( ph ) for ph in self.phantoms.values()] )
         return len( self.phantoms[np] ) if np in self.phantoms else 0
 
     def getDynamicList( self, walker ) :
@@ -210,12 +225,13 @@ class PhantomCollection( object ):
         pars : 1d array
             parameters
         """
-        self.ncalls += 1
         np = walker.problem.npars
-        if not np in self.phantoms :
-            self.phantoms[np] = WalkerList()
+        with self.lock :
+            self.ncalls += 1
+            if not np in self.phantoms :
+                self.phantoms[np] = WalkerList()
 
-        self.phantoms[np] = self.phantoms[np].insertWalker( walker )
+            self.phantoms[np] = self.phantoms[np].insertWalker( walker )
 
     def calculateDynamic( self, lowLhood, np=0 ):
         """
@@ -259,9 +275,10 @@ class PhantomCollection( object ):
             number of parameters
 
         """
-        if not np in self.lowLhood or lowLhood > self.lowLhood[np] or self.paramMin[np] is None :
-            self.calculateDynamic( lowLhood, np=np )
-        return ( self.paramMin[np], self.paramMax[np] )
+        with self.lock :
+            if not np in self.lowLhood or lowLhood > self.lowLhood[np] or self.paramMin[np] is None :
+                self.calculateDynamic( lowLhood, np=np )
+            return ( self.paramMin[np], self.paramMax[np] )
 
 
 
-- 
2.43.0


From f6a8918305ddd99308d33460324639a9e84eea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 09/71] fix: NestedSampler starts each run afresh: samples,
 phantoms, iteration and reports

---
 BayesicFitting/source/NestedSampler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 04edb58..553d4b2 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -494,13 +494,22 @@ class NestedSampler( object ):
 
         if ensemble is None :
             ensemble = self.ensemble
+
+        ## start with a clean slate; leftovers of an earlier run are of no use
+        self.iteration = 0
+        self.samples = SampleList( self.problem.model, 0, ndata=self.problem.ndata )
+        self.phantoms.clear()
+
         self.initWalkers( ensemble, allpars, fitIndex )
 
         for eng in self.engines :
             eng.walkers = self.walkers
             eng.lastWalkerId = len( self.walkers )
+            eng.report = [0] * len( eng.report )
             if self.bestBoost :
                 eng.bestBoost( self.problem, myFitter=self.myFitter )
+            else :
+                eng.checkBest = eng.noBoost
 
         self.distribution.ncalls = 0                      #  reset number of calls
 
-- 
2.43.0


From d11106fe6fd7c5d994d6761e07cd9906d5b126d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 10/71] fix: errors and counts of exploring threads: no
 leftovers in later runs, all threads ended, true call counts

---
 BayesicFitting/source/Explorer.py | 42 ++++++++++++++-----------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index ab2bf6f..157a9d5 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -34,7 +34,6 @@ __status__ = "Perpetual Beta"
 #  *    2017 - 2023 Do Kester
 
 
-threadErrors = []
 
 class Explorer( object ):
     """
@@ -119,28 +118,27 @@ class Explorer( object ):
         ## We have Threads
         explorerThreads = []
         self.lowLhood = lowLhood
+        self.threadErrors = []              # errors in this call only
 
-        nrep = Engine.NCALLS
-        for kw in worst :
-            seed = self.rng.randint( self.TWOP32 )
-            exThread = ExplorerThread( "explorer_%d"%kw, kw, self, engines, seed )
-            exThread.start( )
-            explorerThreads += [exThread]
+        try :
+            for kw in worst :
+                seed = self.rng.randint( self.TWOP32 )
+                exThread = ExplorerThread( "explorer_%d"%kw, kw, self, engines, seed )
+                exThread.start( )
+                explorerThreads += [exThread]
+        finally :
+            for thread in explorerThreads :
+                thread.join( )
 
         for thread in explorerThreads :
-            thread.join( )
-
             for k,engine in enumerate( engines ) :
-                nc = 0
-                for i in range( nrep ) :
-                    nc += thread.engines[k].report[i]
-                    engine.report[i] += thread.engines[k].report[i]
-                engine.report[nrep] += nc
+                for i,nr in enumerate( thread.engines[k].report ) :
+                    engine.report[i] += nr
 
-        if len( threadErrors ) > 0: #check if there are any errors
-            for e in threadErrors:
-                print( e )
-            raise Exception( "Thread Error" )
+        if len( self.threadErrors ) > 0: #check if there are any errors
+            for kw,e in self.threadErrors:
+                print( repr( e ) + " occurred in walker %d" % kw )
+            raise Exception( "Thread Error" ) from self.threadErrors[0][1]
 
     def exploreWalker( self, kw, lowLhood, engines, rng ):
         """
@@ -172,6 +170,7 @@ class Explorer( object ):
 
         moves = 0
         trials = 0
+        update = kw
 
         while moves < maxmoves and trials < maxtrials :
 
@@ -295,8 +294,6 @@ class ExplorerThread( Thread ):
         copy of the list of Engines of Explorer
     """
 
-    global threadErrors
-
     def __init__( self, name, id, explorer, engines, seed ):
         super( ExplorerThread, self ).__init__( name=name )
         self.id = id
@@ -309,9 +306,8 @@ class ExplorerThread( Thread ):
         try :
             self.explorer.exploreWalker( self.id, self.explorer.lowLhood,
                                          self.engines, self.rng )
-        except Exception as e :
-            threadErrors.append( [repr(e) + " occurred in walker %d" % self.id] )
-            raise
+        except BaseException as e :
+            self.explorer.threadErrors.append( ( self.id, e ) )
 
 
 
-- 
2.43.0


From ee500590a8b5df3696b18ca5d6f736d49137301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 11/71] fix: counts of likelihood calls are not lost in threads

---
 BayesicFitting/source/ErrorDistribution.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 0840573..09e4354 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -1,5 +1,6 @@
 import numpy as numpy
 import math
+from threading import Lock
 
 from .HyperParameter import HyperParameter
 from . import Tools
@@ -35,6 +36,8 @@ __status__ = "Perpetual Beta"
 #  *    2017 - 2023 Do Kester
 
 
+countLock = Lock()              # exploring threads share the counters
+
 class ErrorDistribution( object ):
     """
     ErrorDistribution defines general methods for a error distribution.
@@ -370,7 +373,8 @@ class ErrorDistribution( object ):
         allpars : array_like
             parameters of the problem
         """
-        self.ncalls += 1
+        with countLock :
+            self.ncalls += 1
 
         return numpy.sum( self.logLdata( problem, allpars ) )
 
@@ -389,7 +393,8 @@ class ErrorDistribution( object ):
             indices of parameters to be fitted
 
         """
-        self.nparts += 1                ## counts calls tp partialLogL
+        with countLock :
+            self.nparts += 1            ## counts calls tp partialLogL
         mock = problem.result( allpars[:problem.model.npars] )
 
         try :
-- 
2.43.0


From a2839d4ba09a539712d15bf1ea674dc0631d2efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 12/71] fix: scale with keep in fit; values kept at
 initialization restored after a fit with its own keep

The number of fitted parameters was set to the number of kept ones, so scale
and evidence were wrong after fit( keep= ). A keep in fit changed the values
kept at initialization for all later fits.
---
 BayesicFitting/source/BaseFitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 4082a88..ec97c06 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -275,6 +275,9 @@ class BaseFitter( object ):
             return ( numpy.arange( self.model.npchain, dtype=int ), 
                      ydata, self.fitWgts )
 
+        ## the parameters kept at initialization might have been changed since
+        if self.keep is not None :
+            self.keepFixed( self.keep )
         self.npfit = len( self.fitIndex )
         return ( self.fitIndex, ydata, self.fitWgts )
 
@@ -311,9 +314,9 @@ class BaseFitter( object ):
             return None
         else :
 #            print( "Keep  ", keep )
-            self.npfit = len( keep )
             fitIndex = numpy.arange( self.model.npchain )      # start from scratch
             fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
+            self.npfit = len( fitIndex )
             self.model.parameters[list(keep.keys())] = list( keep.values() )
             return fitIndex
 
-- 
2.43.0


From 3296e04b3a6918b87f32efdf1facf95a9730c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 13/71] fix: limitsFit returned only part of the parameters
 with a keep at initialization, and printed

---
 BayesicFitting/source/BaseFitter.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index ec97c06..a109815 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -430,15 +430,10 @@ class BaseFitter( object ):
                 ool += 1
 
         if ool > 0 :                                        # some transgressions
-            print( "ool    ", fmt( ool ), fmt( fix ) )
             self.keepFixed( fix )                           # fix them
             pars = self.fit( ydata, weights=weights, keep=fix )      # run fit again
 #            print( "pars   ", fmt( pars, max=None ) )
 #            print( fmt( sfix ) )
-            self.keepFixed( sfix )                          # reset original fitIndex
-            if sfix is not None :                           # select parameters
-                pars = [self.model.parameters[k] for k in self.fitIndex]
-                fix = list( set( fix ) - set( sfix ) )
 #            warnings.warn( "Parameters ", fix, " exceeded limits." )
 
         return pars                                         # return parameters
-- 
2.43.0


From e977d1b38f447c17fde43d0205f63c82f8970e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 14/71] fix: keep wrote its values into arrays of the user:
 initial parameters and results of earlier fits

---
 BayesicFitting/source/BaseFitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index a109815..6d546f9 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -317,7 +317,9 @@ class BaseFitter( object ):
             fitIndex = numpy.arange( self.model.npchain )      # start from scratch
             fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
             self.npfit = len( fitIndex )
-            self.model.parameters[list(keep.keys())] = list( keep.values() )
+            pars = numpy.array( self.model.parameters, dtype=float )    # not in the user's array
+            pars[list(keep.keys())] = list( keep.values() )
+            self.model.parameters = pars
             return fitIndex
 
     def insertParameters( self, fitpar, index=None, into=None ) :
-- 
2.43.0


From ba640ae9d136f9987f23c724fd9d5cf9d3575072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 15/71] fix: LevenbergMarquardt: initial parameters of the user
 stay unchanged and may be a list, kept values used, never ends worse than it
 starts

It inserted kept parameters into the array given as par0 and took the kept
values from it. The first step was accepted when chisq rose by less than one.
A start outside the limits is moved to the limits, as all trials are.
---
 .../source/LevenbergMarquardtFitter.py        | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 1e21cac..7c2e142 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -182,13 +182,17 @@ class LevenbergMarquardtFitter( IterativeFitter ):
 
 
         trypar = self.model.parameters if par0 is None else par0
+        trypar = numpy.array( trypar, dtype=float )             # not in the user's array
+        if len( trypar ) == self.model.npchain :
+            trypar = trypar[fitIndex]
+        self.checkLimits( trypar, fitIndex )                    # start within the limits
+        trypar = self.insertParameters( trypar, index=fitIndex )    # with the kept values
 
-#        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
-#            par0 = par0[fitIndex]
-
-        self.chi = self.chiSquaredExtra( data, trypar, weights=fitWgts ) + 1
+        self.chi = self.chiSquaredExtra( data, trypar, weights=fitWgts )
+        prechi = self.chi + 1                                   # no convergence at first step
 
         self.lamda = 0.001
+        self.converged = False
 
         if verbose > 1 and self.first :
             print( "  Iter  loglambda    chisq   parameters" )
@@ -199,8 +203,8 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             trypar, trychi = self.trialfit( trypar, fitIndex, data, fitWgts, verbose, maxiter )
             self.model.parameters = trypar
 
-            tol = tolerance if self.chi < 1 else tolerance * self.chi
-            if abs( self.chi - trychi ) < tol :
+            tol = tolerance if prechi < 1 else tolerance * prechi
+            if abs( prechi - trychi ) < tol :
                 self.chi = trychi
                 self.report( verbose, trypar, trychi, more=math.log10( self.lamda ), force=True )
                 self.converged = True
@@ -208,7 +212,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                 self.fitpostscript( data, plot=plot )
                 return trypar                   # we are done.
 
-            self.chi = trychi
+            self.chi = prechi = trychi
             if self.lamda > 1e-100 :
                 self.lamda *= 0.1
 
@@ -259,7 +263,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             if onEdge :
                 newpar = edgePar
 
-            trypar = self.insertParameters( newpar, index=fi, into=params )
+            trypar = self.insertParameters( newpar, index=fi, into=params.copy() )
 
             trychi = self.chiSquaredExtra( data, trypar, weights=weights )
 
-- 
2.43.0


From 0f51e372fa9761fcd3ebaf3dfd70fb1cff5dbf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 16/71] fix: CurveFitter kept the keep of one fit for all next
 ones; limits and list of initial parameters with keep

---
 BayesicFitting/source/CurveFitter.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index f3d32d7..ffe2c79 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -134,15 +134,17 @@ class CurveFitter( IterativeFitter ):
         else :
             bounds = ( -numpy.inf, numpy.inf )
 
-        # Make requested fitIndex; save original one.
-        if keep is not None :
-            self.fitIndex = self.keepFixed( keep )
-
         # Make initial parameters
-        p0 = self.model.parameters if inipar is None else inipar
-        if fitIndex is not None :
+        p0 = self.model.parameters if inipar is None else numpy.asarray( inipar )
+        npch = self.model.npchain
+        if len( p0 ) == npch :
             p0 = p0[fitIndex]
 
+        # Select limits of the fitted parameters
+        if len( fitIndex ) < npch :
+            bounds = [numpy.asarray( b )[fitIndex] if Tools.length( b ) == npch > 1 else b
+                      for b in bounds]
+
         ydat = ydata
         # Normalize the data when needed.
         if hasattr( self, "normdata" ) :
@@ -156,9 +158,15 @@ class CurveFitter( IterativeFitter ):
 
 
         # Call scipy.curve_fit
-        out = curve_fit( self.result, self.xdata, ydat, p0=p0,
-            sigma=sigma, absolute_sigma=abssigma, bounds=bounds, jac=self.jacobian,
-            method=self.method, **kwargs )
+        # Use requested fitIndex in this fit only; restore original one.
+        origIndex = self.fitIndex
+        self.fitIndex = fitIndex
+        try :
+            out = curve_fit( self.result, self.xdata, ydat, p0=p0,
+                sigma=sigma, absolute_sigma=abssigma, bounds=bounds, jac=self.jacobian,
+                method=self.method, **kwargs )
+        finally :
+            self.fitIndex = origIndex
 
         pars = self.insertParameters( out[0], index=fitIndex )
         self.model.parameters = pars
-- 
2.43.0


From ba5d2f70353ab701eeaaeef4d7e560b663b26c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 17/71] fix: QRFitter used stale decompositions after fits with
 weights, accuracy or keep, and squared the weights

---
 BayesicFitting/source/QRFitter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b0be4f6..4c574ad 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -150,19 +150,19 @@ class QRFitter( BaseFitter ):
             fxpar[fi] = 0.0
             ydatacopy = numpy.subtract( ydatacopy, self.model.result( self.xdata, fxpar) )
 
-#        wgts = ( numpy.ones_like( ydata, dtype=float ) if fitwgts is None else
-#                 numpy.sqrt( fitwgts ) )
-
-        wgts = numpy.full_like( ydata, fitwgts, dtype=float )
+        wgts = numpy.sqrt( numpy.full_like( ydata, fitwgts, dtype=float ) )
 
         if hasattr( self, "normdata" ) :
-            normweight = math.sqrt( self.normweight )
+            normweight = numpy.sqrt( self.normweight )
             ydatacopy = numpy.append( ydatacopy, self.normdata )
             wgts = numpy.append( wgts, normweight )
 
         ydatacopy = ydatacopy * wgts
 
-        if self.needsNewDecomposition or weights is not None:
+        # the decomposition can be used again when there are no weights etc in this fit.
+        special = ( weights is not None or accuracy is not None or keep is not None or
+                    hasattr( self, "normdata" ) )
+        if self.needsNewDecomposition or special :
             design = ( self.getDesign( index=fi ).transpose() * wgts ).transpose()
 
             # The QR decomposition in numpy has a different interface from that in scipy.
@@ -171,7 +171,7 @@ class QRFitter( BaseFitter ):
 
             q, r = numpy.linalg.qr( design )
             self.qrmat = numpy.dot( numpy.linalg.inv( r ), q.transpose() )
-            self.needsNewDecomposition = False
+            self.needsNewDecomposition = special
 
         params = numpy.dot( self.qrmat, ydatacopy )
 
-- 
2.43.0


From 30552e354466f23d436e4dcd5d5735ccd7c4b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 18/71] fix: hessian for Newton methods with kept parameters

---
 BayesicFitting/source/MaxLikelihoodFitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index ce577b0..9ec2137 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -271,7 +271,8 @@ class _Chisq( object ):
         """
         Return the Hessian matrix.
         """
-        return self._outer.getHessian( params=par, weights=self._weights, index=self._index )
+        param = self._outer.insertParameters( par, index=self._index )
+        return self._outer.getHessian( params=param, weights=self._weights, index=self._index )
 
 class _LogL( _Chisq ) :
     """
-- 
2.43.0


From ea9960fc7e14437c15670ab32cfbe1e2683a65ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 19/71] fix: ScipyFitter ignored par0, maxiter and tolerance of
 fit, printed unasked, changed numpy's print options; method=None

---
 BayesicFitting/source/ScipyFitter.py | 62 +++++++++++++++-------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 967f174..a430b17 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -165,13 +165,12 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         self.userGradient = gradient
         self.userHessp = hessp
-        self.method = str.upper( method )
+        self.method = None if method is None else str.upper( method )
+        self.autoMethod = ( method is None )
         self.norm = numpy.inf
         self.debug = False
         self.ngrad = 0
 
-        numpy.set_printoptions(formatter={'float': '{: 0.3f}'.format})
-
 
     #  *************************************************************************
     def fit( self, data, weights=None, par0=None, keep=None, limits=None,
@@ -225,7 +224,12 @@ class ScipyFitter( MaxLikelihoodFitter ):
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
-        inipar = self.model.parameters[fitIndex]
+        inipar = numpy.array( self.model.parameters if par0 is None else par0, dtype=float )
+        if len( inipar ) == self.model.npchain :
+            inipar = inipar[fitIndex]
+
+        if tolerance is None : tolerance = self.tolerance
+        if maxiter is None : maxiter = self.maxIter
 
         # Check for limits in the prior
         if limits is not None and self.model.priors :
@@ -234,7 +238,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
             except :
                 limits = ( self.model.lowLimits, self.model.highLimits )
 
-        if self.method is None:
+        if self.method is None or self.autoMethod :
             # Select automatically
             if constraints:
                 self.method = 'SLSQP'
@@ -245,8 +249,6 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         (func,gradient,hess) = self.makeFuncs( data, weights=weights, index=fitIndex )
 
-        print( self.method )
-
         # - hessp
         useHessian = self.method in ('NEWTON-CG', 'DOGLEG', 'TRUST-NCG')
         if ( not useHessian and hasattr( self, "userHessp" ) and self.userHessp is not None ) :
@@ -281,63 +283,65 @@ class ScipyFitter( MaxLikelihoodFitter ):
             options = {}
 
         if self.method == 'NELDER-MEAD':
-            options.setdefault( 'xatol', self.tolerance )
-            options.setdefault( 'fatol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xatol', tolerance )
+            options.setdefault( 'fatol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Nelder-Mead",
                     callback=callback, options=options )
         elif self.method == 'POWELL':
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, method="Powell",
                     callback=callback, options=options )
         elif self.method == 'CG':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="CG",
                     callback=callback, options=options )
         elif self.method == 'BFGS':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="BFGS",
                     callback=callback, options=options )
         elif self.method == 'NEWTON-CG':
-            options.setdefault( 'xtol', self.tolerance )
-            options.setdefault( 'maxiter', self.maxIter )
+            options.setdefault( 'xtol', tolerance )
+            options.setdefault( 'maxiter', maxiter )
             res = minimize( func, inipar, jac=gradient, method="Newton-CG",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         elif self.method == 'L-BFGS-B':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="L-BFGS-B",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'TNC':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="TNC",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'COBYLA':
-            options.setdefault( 'tol', self.tolerance )
+            options.setdefault( 'tol', tolerance )
             res = minimize( func, inipar, method="COBYLA",
                     constraints=constraints, callback=callback, options=options )
         elif self.method == 'SLSQP':
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="SLSQP",
                     bounds=limits, constraints=constraints, callback=callback, options=options )
         elif self.method == 'DOGLEG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="dogleg",
                     hess=hess, callback=callback, options=options )
         elif self.method == 'TRUST-NCG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="trust-ncg",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         else:
             raise ValueError('Unknown solver %s' % self.method)
 
-        print( res )
+        if verbose > 0 :
+            print( self.method )
+            print( res )
 
         parameters = self.insertParameters( res["x"], index=fitIndex )
         self.model.parameters = parameters
-- 
2.43.0


From 69f267979ad440a338584a63d5e0d10a9d5da58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 20/71] fix: RobustShell: kernel given in fit is for that fit
 only

---
 BayesicFitting/source/RobustShell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 9410403..8bd7e29 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -222,7 +222,9 @@ class RobustShell( IterativeFitter ):
             keyword args to be passed to fitter.fit()
         """
 
+        orgkernel = self.kernel
         kernelfunc = self.kernelfunc if kernel is None else self.setKernel( kernel )
+        self.kernel = orgkernel                 ## kernel is for this fit only
         onesided = self.onesided if onesided is None else self.setOneSided( onesided )
         domain = self.domain if domain is None else domain
 
-- 
2.43.0


From 76cfba5e82ae7b2cc3ed3c9b0908a3e77de93f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 21/71] fix: AnnealingAmoeba: best point not overwritten, all
 evaluations within the limits, user's initial values and sizes unchanged

xopt could be a view of the simplex which moved on; shrinking steps took the
trial itself for the point inside the limits; low limits were tested on the
high ones; swapping rows of the simplex lost one of them.
---
 BayesicFitting/source/AnnealingAmoeba.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 29d9ee9..e355235 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -236,6 +236,9 @@ class AnnealingAmoeba( object ):
         """
         nfit = len( xini )
 
+        xini = numpy.array( xini, dtype=float )         # not in the user's arrays
+        step = numpy.array( step, dtype=float )
+
         i = 0
         for ir in xini :
             if self.hasLowLimits( i ) and ir <= self.lolimits[i] :
@@ -278,7 +281,7 @@ class AnnealingAmoeba( object ):
         """
         Return True if it has low limits > -inf.
         """
-        return self.lolimits is not None and self.hilimits[k] > -math.inf
+        return self.lolimits is not None and self.lolimits[k] > -math.inf
 
     def hasHighLimits( self, k ) :
         """
@@ -341,7 +344,9 @@ class AnnealingAmoeba( object ):
             corner = self.simplex[i,:]
             cost = self.func( corner )
             if not numpy.isfinite( cost ) :
+                oldcor = corner.copy()
                 corner += 0.01 * numpy.sum( self.simplex, 0 )
+                corner = self.stayInLimits( oldcor, corner )
                 cost = self.func( corner )
 
             self.values[i] = cost
@@ -451,9 +456,10 @@ class AnnealingAmoeba( object ):
                     self.values[0] = self.values[ilo]
                     self.values[ilo] = swap
 
-                    swap = self.simplex[0,:]
+                    swap = self.simplex[0,:].copy()
                     self.simplex[0,:] = self.simplex[ilo,:]
                     self.simplex[ilo,:] = swap
+                    ilo = 0
 
                 # check if best ever value is better than best in simplex;
                 #     if so replace best and continue
@@ -552,7 +558,7 @@ class AnnealingAmoeba( object ):
         (ndim,nfit) = self.simplex.shape
         milo = [k for k in range( ilo )] + [k for k in range( ilo+1, ndim )]
         for i in milo :
-            inpar = self.simplex[i,:]
+            inpar = self.simplex[i,:].copy()
             self.simplex[i,:] = factor * inpar + emf * self.simplex[ilo,:]
 
             self.simplex[i,:] = self.stayInLimits( inpar, self.simplex[i,:] )
@@ -565,7 +571,7 @@ class AnnealingAmoeba( object ):
                 ylo = self.values[i]
                 if self.values[i] < self.fopt:
                     self.fopt = ylo
-                    self.xopt = p
+                    self.xopt = p.copy()
 
         self.sum = numpy.sum( self.simplex, axis=0 )
 
-- 
2.43.0


From 24af50f40bb1e4b8e482c33c44fb5852f4cc1c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 22/71] fix: AnnealingAmoeba looped for ever when the function
 is NaN in some region, or flat

---
 BayesicFitting/source/AnnealingAmoeba.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index e355235..6b1825b 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -183,7 +183,7 @@ class AnnealingAmoeba( object ):
         super( AnnealingAmoeba, self ).__init__( )
 
         if callable( func ) :
-            self.func = func
+            self.userFunc = func
         else :
             raise ValueError( "func needs to be a callable function" )
         self.seed = seed
@@ -216,11 +216,25 @@ class AnnealingAmoeba( object ):
         # counters
         self.iter = 0
         self.ncalls = 0
+        self.expands = 0
 
         # initialize the simplex
         self.makeSimplex( xini, size )
 
 
+    #  *************************************************************************
+    def func( self, x ) :
+        """
+        Return the function value. NaN is a point to be avoided.
+
+        Parameters
+        ----------
+        x : array_like
+            point where the user's function is evaluated
+        """
+        cost = self.userFunc( x )
+        return math.inf if math.isnan( cost ) else cost
+
     #  *************************************************************************
     def makeSimplex( self, xini, step ):
         """
@@ -406,6 +420,7 @@ class AnnealingAmoeba( object ):
         BETA = 0.5
         GAMMA = 2.0
         DELTA = 10.
+        MAXEXPAND = 20                          # on a flat function it never starts
 
         (ndim,nfit) = self.simplex.shape
         maxiter = self.iter + ( self.maxiter if ( self.temp == 0 ) else self.steps * nfit )
@@ -472,7 +487,8 @@ class AnnealingAmoeba( object ):
                     if self.iter < maxiter:
                         continue
 
-                if self.iter == 0 :             ## it does not start. Inflate the simplex
+                if self.iter == 0 and self.expands < MAXEXPAND :    ## it does not start. Inflate the simplex
+                    self.expands += 1
                     move = "expand"
                     ylo = self.inflateSimplex( ilo, DELTA )
                     trans += nfit
-- 
2.43.0


From 4f66e9ea71641352e773d7a89c2676f7a15c8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 23/71] fix: AmoebaFitter: limits and sizes pertain to the
 right parameters with keep

---
 BayesicFitting/source/AmoebaFitter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index 7cada9a..f34b71c 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -168,8 +168,15 @@ class AmoebaFitter( MaxLikelihoodFitter ):
 
         if par0 is None :
             par0 = self.model.parameters
+        npch = self.model.npchain
         if fitIndex is not None and len( fitIndex ) < len( par0 ) :
-            par0 = par0[fitIndex]
+            par0 = numpy.asarray( par0 )[fitIndex]
+            # select size and limits of the fitted parameters
+            if Tools.length( size ) == npch :
+                size = numpy.asarray( size )[fitIndex]
+            if limits is not None :
+                limits = [numpy.asarray( lim )[fitIndex] if Tools.length( lim ) == npch else lim
+                          for lim in limits]
 
         kwargs = {}
         if size is not None :
-- 
2.43.0


From aba51912af28f4276617893f30c8c78051edc361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 24/71] fix: AnnealingAmoeba changed numpy's print options

---
 BayesicFitting/source/AnnealingAmoeba.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 6b1825b..c3a7a80 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -387,7 +387,6 @@ class AnnealingAmoeba( object ):
         if self.verbose > 0 :
             print( "Iteration   step     ", ( "temp" if ( self.temp > 0 ) else "" ),
                    "  minimum    values" )
-            numpy.set_printoptions( precision=3, suppress=True )
 
         maxiter = self.maxiter * ( 1 if self.temp == 0 else self.steps )
         while self.iter < maxiter :
-- 
2.43.0


From c9daf1d155932f3cb298040055e8d122a1b72f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 25/71] fix: MonteCarlo reseeded and used numpy's global random
 generator

---
 BayesicFitting/source/MonteCarlo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/MonteCarlo.py b/BayesicFitting/source/MonteCarlo.py
index db66888..2c19fa0 100644
--- a/BayesicFitting/source/MonteCarlo.py
+++ b/BayesicFitting/source/MonteCarlo.py
@@ -97,8 +97,8 @@ class MonteCarlo( object ):
         self.model = model
         self.index = index
         self.mcycles = mcycles
-        self._random = numpy.random
-        self._random.seed( seed )
+        self.seed = seed
+        self._random = numpy.random.RandomState( seed )
         self.decompose( covariance )
 
     def decompose( self, covariance ):
@@ -162,7 +162,7 @@ class MonteCarlo( object ):
     #  *************************************************************************
     def __str__( self ):
         """ Return name of the class.  """
-        return "MonteCarlo with seed %d and %d cycles" % (self._random.seed, self.mcycles)
+        return "MonteCarlo with seed %d and %d cycles" % (self.seed, self.mcycles)
 
 
 
-- 
2.43.0


From e63c54733dae74dcce0a2fb465ea7d155bd6abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 26/71] fix: plotSampleList used numpy's global random
 generator

---
 BayesicFitting/source/Plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Plotter.py b/BayesicFitting/source/Plotter.py
index e62d357..da0e8f2 100644
--- a/BayesicFitting/source/Plotter.py
+++ b/BayesicFitting/source/Plotter.py
@@ -228,6 +228,7 @@ def plotSampleList( sl, xdata, ydata, errors=None, npt=10000,
     # plot npt samples from posterior
     ntot = 0
     swgt = 0.0
+    rng = numpy.random.RandomState( 12345 )
 
     for s in sl :
         swgt += s.weight * npt
@@ -235,7 +236,7 @@ def plotSampleList( sl, xdata, ydata, errors=None, npt=10000,
         if ns == 0 : continue
     
         #print( s.weight, swgt, ns )
-        xs = numpy.random.rand( ns ) * xrng + xlo
+        xs = rng.rand( ns ) * xrng + xlo
 
         ax0.plot( xs, s.model.result( xs, s.parameters ), 'r.', markersize=2 )
         swgt -= ns
-- 
2.43.0


From fe96bd780dd14fc1d7e1d0d1e8e4d1fc484e5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 27/71] fix: evidence used a hessian left from other parameters
 or another fit

---
 BayesicFitting/source/BaseFitter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 6d546f9..ea3a030 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -196,6 +196,7 @@ class BaseFitter( object ):
         self.model = model
         self.keep = keep
         self.fitIndex = self.keepFixed( keep )
+        self.usedIndex = self.fitIndex              # index used in the latest fit
         self.fixedScale = fixedScale
 
         if self.ndim != model.ndim:
@@ -268,7 +269,10 @@ class BaseFitter( object ):
             self.fitWgts /= ( accuracy * accuracy )
            
         if keep is not None :
-            return ( self.keepFixed( keep ), ydata, self.fitWgts )
+            self.usedIndex = self.keepFixed( keep )
+            return ( self.usedIndex, ydata, self.fitWgts )
+
+        self.usedIndex = self.fitIndex
 
         if self.fitIndex is None :
             self.npfit = self.model.npchain
@@ -941,8 +945,8 @@ class BaseFitter( object ):
 
         if priorlength == 1 :
             spr += prirange[0]
-        elif limits is None and self.fitIndex is not None :
-            fi = self.fitIndex
+        elif limits is None and self.usedIndex is not None :
+            fi = self.usedIndex
             q = numpy.where( fi < priorlength )
             fq = fi[q]
             priorlength = len( fq )
@@ -953,7 +957,8 @@ class BaseFitter( object ):
         if priorlength < self.npfit :                          # add enough times the last one
             spr += ( self.npfit - priorlength ) * prirange[-1]
 
-        lidet = math.log( numpy.linalg.det( self.hessian ) )
+        ## self.hessian might be left from other parameters, or from another fit
+        lidet = math.log( numpy.linalg.det( self.getHessian( index=self.usedIndex ) ) )
 
         # implementing eq 18 (Kester 2002) term by term
         self.logOccam += -spr + 0.5 * ( self.npfit *
-- 
2.43.0


From 333e6d3d9a76d0acbad323bbead72fed35fc270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 28/71] fix: an interrupt during the derivative of the
 likelihood was swallowed

---
 BayesicFitting/source/ErrorDistribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 09e4354..70d9238 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -406,11 +406,11 @@ class ErrorDistribution( object ):
 
             try :
                 pg.close()
-            except :
+            except Exception :
                 pass
 
             return dL
-        except :
+        except Exception :              ## not for interrupts
 #            raise
 #            print( "Using numeric partialLogL." )
             return self.numPartialLogL( problem, allpars, fitIndex )
-- 
2.43.0


From 178ac0e522ed32a8a58e12ee842bd76a96ac5805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 29/71] fix: reported number of calls to dLogL included those
 of earlier runs

---
 BayesicFitting/source/NestedSampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 553d4b2..82e63c4 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -512,6 +512,7 @@ class NestedSampler( object ):
                 eng.checkBest = eng.noBoost
 
         self.distribution.ncalls = 0                      #  reset number of calls
+        self.distribution.nparts = 0
 
         return keep
 
-- 
2.43.0


From df1abbeca7f83c3b1530375c2dfb20aaf21b616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 30/71] fix: ScipyFitter returned NaN as a successful fit

---
 BayesicFitting/source/ScipyFitter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index a430b17..c31f8f7 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -5,6 +5,7 @@ import warnings
 from scipy.optimize import minimize
 
 from .MaxLikelihoodFitter import MaxLikelihoodFitter
+from .ConvergenceError import ConvergenceError
 #from ConvergenceError import ConvergenceError
 
 __author__ = "Do Kester"
@@ -343,6 +344,10 @@ class ScipyFitter( MaxLikelihoodFitter ):
             print( self.method )
             print( res )
 
+        if numpy.isnan( res["fun"] ) or not numpy.all( numpy.isfinite( res["x"] ) ) :
+            raise ConvergenceError( "%s ended at a non-finite result: %s" %
+                    ( self.method, res["message"] ) )
+
         parameters = self.insertParameters( res["x"], index=fitIndex )
         self.model.parameters = parameters
 
-- 
2.43.0


From de5c8070753720a37595d345907fb91bfc4526c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 31/71] fix: hessian was left from earlier parameters or
 changed by LevenbergMarquardtFitter

---
 BayesicFitting/source/BaseFitter.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index ea3a030..85baf8c 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -520,7 +520,7 @@ class BaseFitter( object ):
         elif name == 'design' :
             return self.getDesign()
         elif name == 'hessian' :
-            return self.getHessian()
+            return self.getHessian( index=self.usedIndex )
         elif name == 'covariance' :
             return self.getCovarianceMatrix()
         elif name == 'stdevs' or name == 'standardDeviations' :
@@ -598,11 +598,9 @@ class BaseFitter( object ):
         design = design.transpose()
 
         if weights is not None :
-            self.hessian = numpy.inner( design, design * weights )
+            return numpy.inner( design, design * weights )
         else :
-            self.hessian = numpy.inner( design, design )
-
-        return self.hessian
+            return numpy.inner( design, design )
 
 #      * TBD Condition number see Wikipedia: Condition Number and Matrix Norm
 
@@ -957,7 +955,6 @@ class BaseFitter( object ):
         if priorlength < self.npfit :                          # add enough times the last one
             spr += ( self.npfit - priorlength ) * prirange[-1]
 
-        ## self.hessian might be left from other parameters, or from another fit
         lidet = math.log( numpy.linalg.det( self.getHessian( index=self.usedIndex ) ) )
 
         # implementing eq 18 (Kester 2002) term by term
-- 
2.43.0


From b5957439787796190c763d75c903d04b43a90f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 32/71] fix: RobustShell took deviants in units of the data
 where the scale is in units of the accuracy

---
 BayesicFitting/source/RobustShell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 8bd7e29..ee80fb7 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -239,6 +239,8 @@ class RobustShell( IterativeFitter ):
             residuals = data - self.model.result( self.xdata, param )
             scale = self.fitter.scale
             residuals /= ( scale * domain )
+            if self.accuracy is not None :
+                residuals /= self.accuracy          # scale is in units of the accuracy
             robwgt = kernelfunc( residuals )
             robwgt = self.getOneSidedWeights( robwgt, residuals, onesided )
 
-- 
2.43.0


From 2b7dfededec297048aacf5ee8bf10caa01ac19a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 33/71] fix: MonteCarlo error was NaN by rounding of the
 covariance or by cancellation

---
 BayesicFitting/source/MonteCarlo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/MonteCarlo.py b/BayesicFitting/source/MonteCarlo.py
index 2c19fa0..76d2fcf 100644
--- a/BayesicFitting/source/MonteCarlo.py
+++ b/BayesicFitting/source/MonteCarlo.py
@@ -103,6 +103,9 @@ class MonteCarlo( object ):
 
     def decompose( self, covariance ):
         val, vec = numpy.linalg.eigh( covariance )
+        # eigenvalues of a (almost) singular covariance can be negative by rounding
+        eps = len( val ) * numpy.finfo( float ).eps * numpy.max( numpy.abs( val ) )
+        val = numpy.where( numpy.abs( val ) <= eps, 0, val )
         self._eigenvectors = vec
         self._eigenvalues = numpy.sqrt( val )
 
@@ -129,13 +132,15 @@ class MonteCarlo( object ):
         sm1 = numpy.zeros( ninp )
         sm2 = numpy.zeros( ninp )
 
+        # subtract the present model to avoid cancellation in the variance
+        yfit = self.model.result( xdata, self.model.parameters )
         for k in range( self.mcycles ) :
-            model = self.randomVariant( xdata )
+            model = self.randomVariant( xdata ) - yfit
             sm1 += model
             sm2 += numpy.square( model )
         sm1 /= self.mcycles
         sm2 /= self.mcycles
-        return numpy.sqrt( sm2  - sm1 * sm1 )
+        return numpy.sqrt( numpy.maximum( sm2 - sm1 * sm1, 0 ) )
 
     def randomVariant( self, xdata ):
         """
-- 
2.43.0


From 82c6c64f667ec56863bb31281425b94e39a72141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 34/71] fix: ErrorsInXandYProblem squared the accuracy in
 place: twice for a scalar, and in the arrays of the user

---
 BayesicFitting/source/ErrorsInXandYProblem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index a9b0761..83cbaeb 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -225,9 +225,10 @@ class ErrorsInXandYProblem( Problem ):
                     if accuracy.shape[-1] == 3 :
                         varxy = accuracy[:,2]
 
-                varxy *= varyy * varxx
-                varyy *= varyy
-                varxx *= varxx
+                # not in place: they may be (parts of) the same array
+                varxy = varxy * varyy * varxx
+                varyy = varyy * varyy
+                varxx = varxx * varxx
             else :
                 raise AttributeError( "Covar and Accuracy are mutually exclusive" )
 
-- 
2.43.0


From 81efb8b690e04718db0cb88c107cd12d26213c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 35/71] fix: exploring walkers that could not move failed for
 ErrorsInXandYProblem

---
 BayesicFitting/source/Explorer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index 157a9d5..fae46c3 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -2,6 +2,7 @@ import numpy as numpy
 from threading import Thread
 
 from .Engine import Engine
+from .ErrorsInXandYProblem import ErrorsInXandYProblem
 from .Formatter import formatter as fmt
 from . import Tools
 
@@ -253,10 +254,11 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        walker.check( nhyp=self.errdis.nphypar )
+        nuisance = len( walker.problem.xdata ) if isinstance( walker.problem, ErrorsInXandYProblem ) else 0
+        walker.check( nhyp=self.errdis.nphypar, nuisance=nuisance )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar :
+        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar - nuisance :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
-- 
2.43.0


From 4fc43f90bc19f1cb8d7e039d10d8b5f430988d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 36/71] fix: reports of NestedSampler failed for
 MixedErrorDistribution with fitted hyperparameters

---
 BayesicFitting/source/MixedErrorDistribution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 89f013a..4dc55a8 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -99,6 +99,11 @@ class MixedErrorDistribution( ErrorDistribution ):
             fraction = HyperParameter( hypar=fraction, prior=fprior, limits=limits )
             self.hyperpar += [fraction]
 
+    @property
+    def PARNAMES( self ) :
+        """ Names of all hyperparameters """
+        return list( self.errdis1.PARNAMES ) + list( self.errdis2.PARNAMES ) + ["fraction"]
+
     def copy( self ):
         """ Return copy of this.  """
         return MixedErrorDistribution( self.errdis1, self.errdis2, copy=self )
-- 
2.43.0


From 3c8dc23cc64494256061426fc04a198575c247ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 37/71] fix: NestedSolver failed when a solution could not be
 moved

---
 BayesicFitting/source/Explorer.py | 6 +++++-
 BayesicFitting/source/Walker.py   | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index fae46c3..2dd35fa 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -258,7 +258,8 @@ class Explorer( object ):
         walker.check( nhyp=self.errdis.nphypar, nuisance=nuisance )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar - nuisance :
+        model = walker.problem.model
+        if model and model.npars < len( walker.allpars ) - self.errdis.nphypar - nuisance :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
@@ -272,6 +273,9 @@ class Explorer( object ):
             raise ValueError( "Inconsistency between stored logL %f and calculated logL %f" %
                                 ( walker.logL, wlogL ) )
 
+        if not model :
+            return
+
         for ki in walker.fitIndex :
 #            if walker.fitIndex[ki] >= 0 :
             if ki < 0 :
diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index 9a597e9..9f018f4 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -182,8 +182,14 @@ class Walker( object ):
         """
         Perform some sanity checks.
         """
-        np = self.problem.model.npars
         na = len( self.allpars )
+        if self.problem.model is None :         ## e.g. an OrderProblem
+            if not na == self.problem.npars + nhyp :
+                raise ValueError( "Walker %d inconsistent parameter length : %d is not ( %d + %d )" %
+                    ( self.id, na, self.problem.npars, nhyp ) )
+            return
+
+        np = self.problem.model.npars
         nm = len( self.problem.model.parameters )
 
         if not na == ( np + nhyp + nuisance):
-- 
2.43.0


From 512f766d5e1cac69731c12ed6d74a698c183820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 38/71] fix: order engines stored their trial in the place of
 another solution

---
 BayesicFitting/source/LoopEngine.py       | 2 +-
 BayesicFitting/source/MoveEngine.py       | 2 +-
 BayesicFitting/source/NearEngine.py       | 2 +-
 BayesicFitting/source/ReverseEngine.py    | 2 +-
 BayesicFitting/source/ShuffleEngine.py    | 2 +-
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 BayesicFitting/source/SwitchEngine.py     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 8eea677..9a2bce1 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -163,7 +163,7 @@ class LoopEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry, fitIndex=walker.fitIndex )
 
         else :
             self.reportFailed()
diff --git a/BayesicFitting/source/MoveEngine.py b/BayesicFitting/source/MoveEngine.py
index e91661e..6aef4de 100644
--- a/BayesicFitting/source/MoveEngine.py
+++ b/BayesicFitting/source/MoveEngine.py
@@ -112,7 +112,7 @@ class MoveEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry, fitIndex=walker.fitIndex )
 
                 ## check if better than Lbest in walkers[-1]
                 ## self.checkBest( problem, ptry, Ltry )
diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index 9de6026..ee47033 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -155,7 +155,7 @@ class NearEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry, fitIndex=walker.fitIndex )
             t = 1
 
         else :
diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index cc009ef..bbbdd7e 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -100,7 +100,7 @@ class ReverseEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry, fitIndex=walker.fitIndex )
 
                 return t
 
diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index e5ef5cf..47f7e4c 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -114,7 +114,7 @@ class ShuffleEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry, fitIndex=walker.fitIndex )
 
                 return t
 
diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 467ce5f..5bad2da 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -94,7 +94,7 @@ class StartOrderEngine( OrderEngine ):
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-        self.setWalker( walker.id, problem, par, logL )
+        self.setWalker( kw, problem, par, logL, fitIndex=walker.fitIndex )
 
         return len( par )
 
diff --git a/BayesicFitting/source/SwitchEngine.py b/BayesicFitting/source/SwitchEngine.py
index 8aa85e4..8438ac7 100644
--- a/BayesicFitting/source/SwitchEngine.py
+++ b/BayesicFitting/source/SwitchEngine.py
@@ -115,7 +115,7 @@ class SwitchEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry, fitIndex=walker.fitIndex )
 #            param = walker.allpars
 
             return 2
-- 
2.43.0


From f2fad06f5e145d702946c64c83e15f4387d74eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 39/71] fix: ShuffleEngine could not be used in NestedSolver

---
 BayesicFitting/source/ShuffleEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index 47f7e4c..1801d59 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -75,7 +75,7 @@ class ShuffleEngine( OrderEngine ):
         return str( "ShuffleEngine" )
 
     #  *********EXECUTE***************************************************
-    def execute( self, kw, lowLhood ):
+    def executeOnce( self, kw, lowLhood ):
         """
         Execute the engine by diffusing the parameters.
 
-- 
2.43.0


From ef0948ec4fd55780847b7da50b2822d5c48da081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 40/71] fix: NestedSolver started with numpy's global random
 generator

---
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 5bad2da..3448b96 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -90,7 +90,7 @@ class StartOrderEngine( OrderEngine ):
 
         problem = walker.problem
 #        print( walker.allpars )
-        par = numpy.random.permutation( walker.allpars )
+        par = self.rng.permutation( walker.allpars )
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-- 
2.43.0


From fa290e33d5664d44c6f74953450dd55bf5259ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 41/71] fix: ReverseEngine reported a refused reversal as a
 move

---
 BayesicFitting/source/ReverseEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index bbbdd7e..5974f74 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -110,6 +110,6 @@ class ReverseEngine( OrderEngine ):
 
         self.reportReject()
 
-        return t                        # nr of succesfull steps
+        return 0                        # nr of succesfull steps
 
 
-- 
2.43.0


From 5565d925800284f588d05958c34bc41fa1898eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 42/71] fix: plots of NestedSolver failed

---
 BayesicFitting/source/NestedSolver.py | 41 +++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/BayesicFitting/source/NestedSolver.py b/BayesicFitting/source/NestedSolver.py
index 4deebb1..3206219 100644
--- a/BayesicFitting/source/NestedSolver.py
+++ b/BayesicFitting/source/NestedSolver.py
@@ -223,6 +223,47 @@ class NestedSolver( NestedSampler ):
         """ Return the name of this sampler.  """
         return str( "NestedSolver" )
 
+    #  *******PLOTS*************************************************************
+    def plotLast( self ) :
+        """
+        Plot the best solution.
+        """
+        plt.figure( figsize=[8,8] )
+        self.plotOrder( self.samples[-1].allpars )
+        plt.show()
+
+    def plotResult( self, walker, iter, plot=0 ) :
+        """
+        Plot the solution of a walker.
+
+        Parameters
+        ----------
+        walker : Walker
+            the walker to plot
+        iter : int
+            iteration number
+        plot : int (one of (0,1,2)
+            0 immediate return, no action
+            1 plot
+            2 plot but dont show (for testing)
+        """
+        if plot == 0 :
+            return
+
+        plt.figure( 'iterplot' )
+        plt.clf()
+        self.plotOrder( walker.allpars )
+        plt.title( "Iteration %d" % iter )
+        if plot < 2 :
+            plt.pause( 0.02 )
+
+    def plotOrder( self, order ) :
+        """
+        Plot the nodes in the first 2 dimensions, connected in order.
+        """
+        xdata = self.problem.xdata[order]
+        plt.plot( xdata[:,0], xdata[:,-1 if xdata.shape[1] < 2 else 1], 'k.-' )
+
     #  *********DISTRIBUTIONS***************************************************
     def setErrorDistribution( self, name=None, scale=1.0, power=2.0 ):
         """
-- 
2.43.0


From 63beec5f69525294bb34464054f7b52c22db8de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 43/71] fix: PhantomSampler began with all phantoms of the
 initial exploration and then dropped the best of them

---
 BayesicFitting/source/NestedSampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 82e63c4..82609e7 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -427,7 +427,10 @@ class NestedSampler( object ):
         if not isinstance( self.problem.model, LinearModel ) :
             self.lowLhood = -sys.float_info.max
             # Explore all walker(s)
+            usePhantoms = explorer.usePhantoms
+            explorer.usePhantoms = False        # move the walkers; dont add to them
             explorer.explore( range( self.ensemble ), self.lowLhood, self.iteration )
+            explorer.usePhantoms = usePhantoms
             self.iteration = 0                  # reset iteration number
 
 
-- 
2.43.0


From fd782b17ca06765bf99f5b548a7c86b869efb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 44/71] fix: PhantomSampler dropped live points when the
 ensemble is smaller than 100

---
 BayesicFitting/source/PhantomSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 58c6858..b0a0941 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -259,7 +259,7 @@ class PhantomSampler( NestedSampler ):
 
 
         while len( self.walkers ) > self.initEnsemble :
-            ks = self.initEnsemble - self.step
+            ks = self.initEnsemble - worst
             k = ks + self.rng.randint( self.ensemble - ks - 1 )
 #            print( k, self.ensemble, len( self.walkers ), self.walkers[-1].logL )
             del( self.walkers[k] )
-- 
2.43.0


From f20ed2b2023b7d9adb153289d9bf43acdada50ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 45/71] fix: PhantomSampler failed when the percentage is less
 than one walker

---
 BayesicFitting/source/PhantomSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index b0a0941..6e417e5 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -225,7 +225,7 @@ class PhantomSampler( NestedSampler ):
 
     def __getattr__( self, name ) :
         if name == "worst" :
-            return int( ( len( self.walkers ) * self.step ) // 100 )
+            return max( 1, int( ( len( self.walkers ) * self.step ) // 100 ) )
         else :
             return super().__getattr__( name )
 
-- 
2.43.0


From f8c5a2d0842cc773d93c7a8433753371a30caa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 46/71] fix: formatter mixed up the arrays formatted in other
 threads

---
 BayesicFitting/source/Formatter.py | 50 +++++++++++++++---------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/BayesicFitting/source/Formatter.py b/BayesicFitting/source/Formatter.py
index e947c02..483895f 100644
--- a/BayesicFitting/source/Formatter.py
+++ b/BayesicFitting/source/Formatter.py
@@ -5,6 +5,7 @@ from numpy import ndarray
 from numpy import float64
 from numpy import int64
 import math
+import threading
 
 __author__ = "Do Kester"
 __year__ = 2021
@@ -39,6 +40,9 @@ fmt = { "float64" : " %8.3f",
         "bool" : " %d", 
         "object" : "%s" }
 
+# Progress of the formatting under way, for each thread its own.
+local = threading.local()
+
 
 def formatter_init( format={}, indent=None, linelength=None, max=-1 ):
     """
@@ -114,19 +118,17 @@ def formatter( array, format=None, indent=None, linelength=None, max=-1, tail=0
     string : containing the formatted array
 
     """
-    global count, nwl, sp, llen, fmtlen, mx, fmt
-
     if indent is None :
         indent = gindent
     if linelength is None :
         linelength = gllen
     if max is not None and max <= 0 :
         max = gmax
-    count = indent
-    llen = linelength
-    mx = max
-    nwl = False
-    sp = 0
+    local.count = indent
+    local.llen = linelength
+    local.mx = max
+    local.nwl = False
+    local.sp = 0
 #    print( count, nwl, sp, llen, indent, mx, fmt )
 
     if not isinstance( array, ndarray ) :
@@ -135,51 +137,49 @@ def formatter( array, format=None, indent=None, linelength=None, max=-1, tail=0
     if format is None :
         format = fmt[str(array.dtype)]
 
-    fmtlen = len( format % 1 )
+    local.fmtlen = len( format % 1 )
 
     result = ""
     result = recursive_format( result, array, format=format, indent=indent, tail=tail )
     return result
 
 def recursive_format( result, array, format=None, indent=0, tail=0 ) :
-    global count, nwl, sp, llen, fmtlen, mx, fmt
-
     if array.size == 1 :
-        if count + fmtlen > llen :
-            result += ( "\n%s" % spaces( sp + indent ) )
-            count = indent
+        if local.count + local.fmtlen > local.llen :
+            result += ( "\n%s" % spaces( local.sp + indent ) )
+            local.count = indent
         if format is None :
             format = fmt[array.__class__]
         result += ( format % array )
-        count += fmtlen
+        local.count += local.fmtlen
         return result
 
     shp = array.shape
-    if sp > 0 and nwl :
-        result += ( "\n%s" % spaces( sp + indent ) )
+    if local.sp > 0 and local.nwl :
+        result += ( "\n%s" % spaces( local.sp + indent ) )
     result += ( "[" )
-    nwl = False
-    sp += 1
-    shp0 = shp[0] if mx is None else min( shp[0], mx )
+    local.nwl = False
+    local.sp += 1
+    shp0 = shp[0] if local.mx is None else min( shp[0], local.mx )
     for k in range( shp0 ) :
         result = recursive_format( result, array[k], format=format,
                                    indent=indent, tail=tail )
-        nwl = True
-    if mx is not None and shp[0] > mx :
-        if shp[0] > mx + tail :
+        local.nwl = True
+    if local.mx is not None and shp[0] > local.mx :
+        if shp[0] > local.mx + tail :
             lens = len( shp )
             if lens > 1 :
                 result += "\n%s..." % spaces( lens + indent )
             else :
                 result += " ..."
-        t = min( tail, shp[0] - mx )
+        t = min( tail, shp[0] - local.mx )
         for k in range( -t, 0 ) :
             result = recursive_format( result, array[k], format=format,
                                        indent=indent, tail=tail )
 
     result += ( "]"  )
-    count = 0
-    sp -=1
+    local.count = 0
+    local.sp -=1
     return result
 
 def spaces( ksp ) :
-- 
2.43.0


From bdad640b683dc0eaea4c78cdcfae3a4fef588e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 47/71] fix: warning filters could be lost in threads:
 numpy.errstate instead of warnings.catch_warnings

---
 BayesicFitting/source/JeffreysPrior.py            | 4 +---
 BayesicFitting/source/LaplacePrior.py             | 4 +---
 BayesicFitting/source/PoissonErrorDistribution.py | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/JeffreysPrior.py b/BayesicFitting/source/JeffreysPrior.py
index 1659ee0..a31137c 100644
--- a/BayesicFitting/source/JeffreysPrior.py
+++ b/BayesicFitting/source/JeffreysPrior.py
@@ -1,6 +1,5 @@
 import math as math
 import numpy as numpy
-import warnings
 
 from .Prior import Prior
 from .Tools import setAttribute as setatt
@@ -138,8 +137,7 @@ class JeffreysPrior( Prior ):
         try :
             return 0 if self.isOutOfLimits( x ) else 1.0 / ( x * self._urng )
         except ValueError :
-            with warnings.catch_warnings():
-                warnings.simplefilter( "ignore", category=RuntimeWarning )
+            with numpy.errstate( all="ignore" ):
                 return numpy.where( self.isOutOfLimits( x ), 0, 
                                     1.0 / ( x * self._urng ) )
 
diff --git a/BayesicFitting/source/LaplacePrior.py b/BayesicFitting/source/LaplacePrior.py
index c102298..d2a7315 100644
--- a/BayesicFitting/source/LaplacePrior.py
+++ b/BayesicFitting/source/LaplacePrior.py
@@ -1,6 +1,5 @@
 import math
 import numpy
-import warnings
 
 from .Prior import Prior
 
@@ -159,8 +158,7 @@ class LaplacePrior( Prior ):
             else :
                 dv = -math.log( 2 - uv )
         except ValueError :
-            with warnings.catch_warnings():
-                warnings.simplefilter( "ignore", category=RuntimeWarning )
+            with numpy.errstate( all="ignore" ):
                 dv = numpy.where( ( uv == 0 ) | ( uv == 2 ),
                     numpy.copysign( self.MAXVAL, uv - 1 ),
                     numpy.where( uv <= 1, numpy.log( uv ),
diff --git a/BayesicFitting/source/PoissonErrorDistribution.py b/BayesicFitting/source/PoissonErrorDistribution.py
index 03b5ed6..b492bee 100644
--- a/BayesicFitting/source/PoissonErrorDistribution.py
+++ b/BayesicFitting/source/PoissonErrorDistribution.py
@@ -1,6 +1,5 @@
 import numpy as numpy
 import math
-import warnings
 
 from .ErrorDistribution import ErrorDistribution
 from .LogFactorial import logFactorial
@@ -147,8 +146,7 @@ class PoissonErrorDistribution( ErrorDistribution ):
             mockdata = problem.result( allpars )
         lfdata = logFactorial( problem.ydata )
 
-        with warnings.catch_warnings():
-            warnings.simplefilter( "ignore", category=RuntimeWarning )
+        with numpy.errstate( all="ignore" ):
 #            print( problem.ydata.shape, mockdata.shape, lfdata.shape  )
             lld = problem.ydata * numpy.log( mockdata ) - mockdata - lfdata
 
-- 
2.43.0


From 9340912ff9f8100128ec4be36b22d6e1c60a6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 48/71] fix: printclass changed numpy's print options

---
 BayesicFitting/source/Tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Tools.py b/BayesicFitting/source/Tools.py
index 3511acd..ebc6e9d 100644
--- a/BayesicFitting/source/Tools.py
+++ b/BayesicFitting/source/Tools.py
@@ -381,8 +381,13 @@ def printclass( cls, nitems=8, printId=False ) :
     """
     Print the attributes of a class.
     """
-    numpy.set_printoptions( precision=3, threshold=10, edgeitems=4 )
+    with numpy.printoptions( precision=3, threshold=10, edgeitems=4 ) :
+        printAttributes( cls, nitems=nitems, printId=printId )
 
+def printAttributes( cls, nitems=8, printId=False ) :
+    """
+    Print the attributes of a class, with the present print options.
+    """
     ###  Import Model here to avoid circular imports ###
     from .Model import Model
     from .Problem import Problem
-- 
2.43.0


From 9bc2fc57ff1345da86761c278b76e797cfacda78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 49/71] fix: printclass failed for scalar arrays

---
 BayesicFitting/source/Tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Tools.py b/BayesicFitting/source/Tools.py
index ebc6e9d..051c0de 100644
--- a/BayesicFitting/source/Tools.py
+++ b/BayesicFitting/source/Tools.py
@@ -425,7 +425,7 @@ def printAttributes( cls, nitems=8, printId=False ) :
 
 def printlist( val, nitems=8 ) :
     nv = length( val )
-    if nv == 0 or isinstance( val[0], numbers.Number ) :
+    if nv == 0 or getattr( val, "ndim", 1 ) == 0 or isinstance( val[0], numbers.Number ) :
         if nv <= nitems :
             print( val )
         else :
-- 
2.43.0


From a4c8eee73ec7f935a1f2b58244436cb031a1b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 50/71] fix: PhantomSampler looped for ever when no new walkers
 could be found

---
 BayesicFitting/source/PhantomSampler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 6e417e5..7d2e629 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -250,11 +250,18 @@ class PhantomSampler( NestedSampler ):
 #        e0 = self.engines[0]
 #        print( "updateW  ", worst, len( self.walkers ), fma( e0.unitRange, linelength=200 ) )
 
+        fails = 0
         while len( self.walkers ) <= self.initEnsemble :
+            nwalk = len( self.walkers )
             # Explore the copied walker(s)
             wlist = [self.rng.randint( worst, self.ensemble )]
             explorer.explore( wlist, self.lowLhood, self.iteration )
 
+            # No new walkers can be found: proceed with copies, as NestedSampler does
+            fails = fails + 1 if len( self.walkers ) == nwalk else 0
+            if fails > explorer.maxtrials :
+                self.walkers.setWalker( self.walkers[wlist[0]].copy(), nwalk )
+
 #            print( "explore   ", wlist, self.ensemble, min(e0.unitRange), max( e0.unitRange) )
 
 
-- 
2.43.0


From 8c319f5164e285a2391985e905157cb7388ed070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 51/71] fix: standard deviations and hyperparameters of a
 SampleList depended on what was read before

---
 BayesicFitting/source/SampleList.py | 45 +++++++++++++++--------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index d6ccd93..c1a208b 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -143,18 +143,15 @@ class SampleList( list ):
         if name == "parameters" :
             return self.getParameters()
         elif name == "stdevs" or name == "standardDeviations" :
-            self.getParameters()
-            return self.stdevs
+            return self.averstdParameters()[1]
         elif name == "hypars" :
             return self.getHypars()
-        elif name == "stdevHypar" :
-            self.getHypars()
-            return self.stdevHypar
+        elif name == "stdevHypar" or name == "stdevHypars" :
+            return self.averstd( "hyper" )[1]
         elif name == "nuisance" :
             return self.getNuisance()
         elif name == "stdevNuis" :
-            self.getNuisance()
-            return self.stdevNuis
+            return self.averstd( "nuisance" )[1]
         elif name == "scale" :
             return self.hypars[0]
         elif name == "stdevScale" :
@@ -283,7 +280,7 @@ class SampleList( list ):
     # ===== AVERAGES and STDEVS ===================================================
     def getParameters( self ):
         """
-        Calculate the average of the parameters and the standard deviations.
+        Calculate the average of the parameters.
 
         Return
         ------
@@ -292,12 +289,24 @@ class SampleList( list ):
         ------
             ValueError when using Dynamic Models
 
+        """
+        return self.averstdParameters()[0]
+
+    def averstdParameters( self ):
+        """
+        Calculate the average of the parameters and the standard deviations.
+
+        Return
+        ------
+            The average values of the parameters and their standard deviations.
+        Raises
+        ------
+            ValueError when using Dynamic Models
+
         """
         mdl = self[0].model
         if not ( mdl.hasPriors() and any( [mdl.getPrior( k ).isCircular() for k in range( mdl.npchain )] ) ) :
-            ( a, s ) = self.averstd( "parameters" )
-            self.stdevs = s
-            return a
+            return self.averstd( "parameters" )
 
         par, wgt = self.getParAndWgtEvolution()
         np = self[0].model.npchain
@@ -308,10 +317,7 @@ class SampleList( list ):
             clh = None if not pr.isCircular() else pr.getLimits()
             param[k], stdev[k] = Tools.average( par[:,k], weights=wgt, circular=clh )
 
-        self.parameters = param
-        self.stdevs = stdev
-
-        return self.parameters
+        return ( param, stdev )
 
     def getHypars( self ) :
         """
@@ -332,18 +338,13 @@ class SampleList( list ):
         self.hypars = hypar
         return self.hypars
         """
-        ( a, s ) = self.averstd( "hyper" )
-        self.stdevHypars = s
-        self.hypars = a
-        return a
+        return self.averstd( "hyper" )[0]
 
     def getNuisance( self ) :
         """
         Return the average of the nuisance parameters (if present)
         """
-        ( a, s ) = self.averstd( "nuisance" )
-        self.stdevNuis = s
-        return a
+        return self.averstd( "nuisance" )[0]
 
     def averstd( self, name ) :
         """
-- 
2.43.0


From 13250bd3bfcb2f51eb84b671a961ae34fe10a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 52/71] fix: monteCarloError of a SampleList failed at first
 and returned the errors of other x-values

---
 BayesicFitting/source/SampleList.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index c1a208b..638fe7c 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -531,7 +531,7 @@ class SampleList( list ):
             sumwgt += wgt
 
 #        self.error = numpy.sqrt( ( error - result * result ) / self.ndata )
-        self.error = numpy.sqrt( error - result * result )
+        self.error = numpy.sqrt( numpy.maximum( error - result * result, 0 ) )
         self.result = result
 
         return self.result
@@ -556,7 +556,6 @@ class SampleList( list ):
             standard deviations at each input point
 
         """
-        if Tools.length( xdata ) != len( self.result ):
-            self.average( xdata )
+        self.average( xdata )
         return self.error
 
-- 
2.43.0


From 7a50f03800323fa9bc9e9e9d439a4493b9d78d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:36 +0000
Subject: [PATCH 53/71] fix: a prior with changed limits, center or scale
 differed from one made with them

---
 BayesicFitting/source/CauchyPrior.py  |  2 +-
 BayesicFitting/source/GaussPrior.py   |  2 +-
 BayesicFitting/source/LaplacePrior.py |  2 +-
 BayesicFitting/source/Prior.py        | 28 +++++++++++++++++++++------
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/CauchyPrior.py b/BayesicFitting/source/CauchyPrior.py
index a7bab0b..1807dab 100644
--- a/BayesicFitting/source/CauchyPrior.py
+++ b/BayesicFitting/source/CauchyPrior.py
@@ -92,7 +92,7 @@ class CauchyPrior( Prior ):
         self.center = center
         self.scale = scale
 
-        if circular is True and center == 0 and limits is not None :
+        if circular is True and center == 0 and limits is not None and prior is None :
             self.center = 0.5 * ( limits[0] + limits[1] )
 
         self.limint = self.limitedIntegral( center=center, circular=circular, 
diff --git a/BayesicFitting/source/GaussPrior.py b/BayesicFitting/source/GaussPrior.py
index 58fefc9..6e98701 100644
--- a/BayesicFitting/source/GaussPrior.py
+++ b/BayesicFitting/source/GaussPrior.py
@@ -97,7 +97,7 @@ class GaussPrior( Prior ):
         self.center = center
         self.scale = scale
 
-        if circular is True and center == 0 and limits is not None :
+        if circular is True and center == 0 and limits is not None and prior is None :
             self.center = 0.5 * ( limits[0] + limits[1] )
 
         self.limint = self.limitedIntegral( center=center, circular=circular, 
diff --git a/BayesicFitting/source/LaplacePrior.py b/BayesicFitting/source/LaplacePrior.py
index d2a7315..75f99c6 100644
--- a/BayesicFitting/source/LaplacePrior.py
+++ b/BayesicFitting/source/LaplacePrior.py
@@ -97,7 +97,7 @@ class LaplacePrior( Prior ):
         self.center = center
         self.scale = scale
 
-        if circular is True and center == 0 and limits is not None :
+        if circular is True and center == 0 and limits is not None and prior is None :
             self.center = 0.5 * ( limits[0] + limits[1] )    
 
         self.limint = self.limitedIntegral( center=center, circular=circular, 
diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index c910226..b1588fb 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -191,9 +191,16 @@ class Prior( object ):
         try :
             self._umin = 0.0            ## only for re-setting the limits
             self._urng = 1.0
-            umax = self.domain2Unit( self.highLimit )
-            self._umin = self.domain2Unit( self.lowLimit )
+            ## the limits are set in the base domain
+            dom2unit = ( self.baseDomain2Unit if hasattr( self, "baseDomain2Unit" )
+                            else self.domain2Unit )
+            umax = dom2unit( self.highLimit )
+            self._umin = dom2unit( self.lowLimit )
             self._urng = umax - self._umin
+            if hasattr( self, "limint" ) :
+                self.limint = self._urng
+            if self.isCircular() :
+                self.circular = True        ## the limits define the period
         except Exception :
             self._urng = math.inf
 
@@ -201,6 +208,13 @@ class Prior( object ):
 
         if math.isinf( self._urng ) :
 #            warnings.warn( "%s needs limits" % self.__str__() )
+            reset = False
+
+        if not reset and hasattr( self, "baseUnit2Domain" ) and not self.isCircular() :
+            ## there are no limits any more
+            setatt( self, "unit2Domain", self.baseUnit2Domain )
+            setatt( self, "domain2Unit", self.baseDomain2Unit )
+            del( self.baseUnit2Domain, self.baseDomain2Unit )
             return
 
         if hasattr( self, "baseUnit2Domain" ) : return			# aleady reset
@@ -290,7 +304,10 @@ class Prior( object ):
             raise ValueError( "Attribute %s must be positive" % name )
 
         if name in keys :
+            reset = ( name in ["center", "scale"] and "_umin" in self.__dict__ )
             setatt( self, name, value )
+            if reset :                      ## the limits on the new domain
+                self.setLimits( self.getLimits() )
         else :
             raise AttributeError( repr( self ) + " object has no attribute " + name )
 
@@ -316,8 +333,7 @@ class Prior( object ):
 
     def unsetLimits( self ):
         """ Remove all limits.  """
-        self.lowLimit = self._lowDomain
-        self.highLimit = self._highDomain
+        self.setLimits()
 
     def setAttributes( self, limits=None, scale=None ) :
         """
@@ -330,10 +346,10 @@ class Prior( object ):
         scale : float or None
             scale factor
         """
-        if limits is not None :
-            self.setLimits( limits=limits )
         if scale is not None :
             self.scale = scale
+        if limits is not None :
+            self.setLimits( limits=limits )
 
     def isOutOfLimits( self, par ):
         """
-- 
2.43.0


From 2bb6ce1723e1b974d3b8a4abc19a2b9b14e77098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 54/71] fix: copies of models shared priors, knots and other
 arrays with the original

---
 BayesicFitting/source/BSplinesModel.py        |  2 +-
 BayesicFitting/source/BaseModel.py            | 11 ++++++-----
 BayesicFitting/source/ConstantModel.py        |  4 ++--
 BayesicFitting/source/DecisionTreeModel.py    |  2 +-
 BayesicFitting/source/Model.py                |  7 ++++---
 BayesicFitting/source/SineSplineDriftModel.py |  2 +-
 BayesicFitting/source/SineSplineModel.py      |  2 +-
 BayesicFitting/source/SplinesModel.py         |  2 +-
 BayesicFitting/source/SurfaceSplinesModel.py  |  3 ++-
 9 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/BSplinesModel.py b/BayesicFitting/source/BSplinesModel.py
index b297ffa..06273d7 100644
--- a/BayesicFitting/source/BSplinesModel.py
+++ b/BayesicFitting/source/BSplinesModel.py
@@ -156,7 +156,7 @@ class BSplinesModel( LinearModel ):
             raise AttributeError( "BSplinesModel cannot have fixed parameters" )
 
         if copy is not None :
-            knots = copy.knots
+            knots = copy.knots.copy()
             order = copy.order
         if knots is not None : nrknots = len( knots )
         elif nrknots is None :
diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index a3c5818..d5b6bf8 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -123,12 +123,13 @@ class BaseModel( object ):
         else :
             setatt( self, "npbase", copy.npbase )
             setatt( self, "ndim", copy.ndim )
-            setatt( self, "priors", None if copy.priors is None else copy.priors.copy() )
-            setatt( self, "posIndex", copy.posIndex )
-            setatt( self, "nonZero", copy.nonZero )
-            setatt( self, "deltaP", copy.deltaP )
+            setatt( self, "priors", None if copy.priors is None else
+                                [None if p is None else p.copy() for p in copy.priors] )
+            setatt( self, "posIndex", copy.posIndex.copy() )
+            setatt( self, "nonZero", copy.nonZero.copy() )
+            setatt( self, "deltaP", copy.deltaP.copy() )
             setatt( self, "tiny", copy.tiny )
-            setatt( self, "parNames", copy.parNames )
+            setatt( self, "parNames", copy.parNames[:] )
 
     def __setattr__( self, name, value ):
         """
diff --git a/BayesicFitting/source/ConstantModel.py b/BayesicFitting/source/ConstantModel.py
index ab6d7a5..119516a 100644
--- a/BayesicFitting/source/ConstantModel.py
+++ b/BayesicFitting/source/ConstantModel.py
@@ -116,8 +116,8 @@ class ConstantModel( Model ):
         super( ConstantModel, self ).__init__( 0, ndim=ndim, copy=copy )
 
         if copy is not None :                  # copy from model
-            setatt( self, "fixedModel", copy.fixedModel )
-            setatt( self, "table", copy.table )
+            setatt( self, "fixedModel", None if copy.fixedModel is None else copy.fixedModel.copy() )
+            setatt( self, "table", None if copy.table is None else copy.table.copy() )
         elif table is not None :                # store tabular results
             setatt( self, "table", table, islist=True, type=float )
             setatt( self, "fixedModel", None )
diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 0016c91..1d5a26b 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -193,7 +193,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             setatt( self, "nsplit", self.NSPLITPRIOR )
             self.setLimits( lowLimits=0.0, highLimits=1.0 )
         else :
-            setatt( self, "growPrior", copy.growPrior )
+            setatt( self, "growPrior", None if copy.growPrior is None else copy.growPrior.copy() )
             setatt( self, "ncomp", copy.ncomp )
             setatt( self, "nsplit", copy.nsplit )
             setatt( self, "itypes", copy.itypes )
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e839d66..13fe374 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -304,10 +304,10 @@ class Model( FixedModel ):
 
                 n2 = np + last.npbase
                 # hard overwrite of the base parameters (over the chain parameters)
-                setatt( mdl, "parameters", self._head.parameters[np:n2] )
+                setatt( mdl, "parameters", self._head.parameters[np:n2].copy() )
 
                 if self.stdevs is not None :
-                    setatt( mdl, "stdevs", self._head.stdevs[np:n2] )
+                    setatt( mdl, "stdevs", self._head.stdevs[np:n2].copy() )
                 else :
                     setatt( mdl, "stdevs", None )
                 setatt( mdl, "_npchain", mdl.npbase )      # only extract one model
@@ -1730,7 +1730,8 @@ class Brackets( Model ):
         super( Brackets, self ).__init__( model.npchain, ndim=model.ndim,
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
-        setatt( self, "parameters", model.parameters )
+        if copy is None :
+            setatt( self, "parameters", model.parameters )
 
         next = model
         deep = 1
diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index cbf3c44..37dac64 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -123,7 +123,7 @@ class SineSplineDriftModel( NonLinearModel ):
 
     def copy( self ):
         """ Copy method.  """
-        return SineSplineDriftModel( self.knots, order=self.order,
+        return SineSplineDriftModel( self.knots.copy(), order=self.order,
                                      degree=self.degree, copy=self )
 
     def __setattr__( self, name, value ) :
diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index 178c1be..85a6b80 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -126,7 +126,7 @@ class SineSplineModel( LinearModel ):
 
     def copy( self ):
         """ Copy method.  """
-        return SineSplineModel( self.frequency, self.knots, order=self.order, copy=self )
+        return SineSplineModel( self.frequency, self.knots.copy(), order=self.order, copy=self )
 
     def __setattr__( self, name, value ) :
         if name == "frequency" :
diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 84eda44..13dc9ea 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -140,7 +140,7 @@ class SplinesModel( LinearModel ):
         """
 
         if copy is not None :
-            knots = copy.knots
+            knots = copy.knots.copy()
             order = copy.order
         if knots is not None : nrknots = len( knots )
         elif nrknots is None :
diff --git a/BayesicFitting/source/SurfaceSplinesModel.py b/BayesicFitting/source/SurfaceSplinesModel.py
index 9ace790..3d4bfd4 100644
--- a/BayesicFitting/source/SurfaceSplinesModel.py
+++ b/BayesicFitting/source/SurfaceSplinesModel.py
@@ -119,7 +119,8 @@ class SurfaceSplinesModel( LinearModel ):
 
     def copy( self ):
         """ Copy method.  """
-        return SurfaceSplinesModel( self.knots, order=self.order, copy=self )
+        return SurfaceSplinesModel( [numpy.array( k ) for k in self.knots],
+                    order=list( self.order ), copy=self )
 
     def calcNp( self, knots, order ) :
         if Tools.length( order ) == 1 :
-- 
2.43.0


From 535a42ad7dcfd6775d9b635731f8be92b9461853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 55/71] fix: copies of CombiModel lost parameters, standard
 deviations and chain

---
 BayesicFitting/source/CombiModel.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 3ca1902..086102c 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -155,6 +155,15 @@ class CombiModel( BracketModel ):
                     values  multiplied to each of the key-th parameters
 
         """
+        if copy is not None :
+            # model is already the repeated model of the copy
+            super( CombiModel, self ).__init__( model, copy=copy, **kwargs )
+            for name in ["nmp", "nrepeat", "npcmax"] :
+                setatt( self, name, getattr( copy, name ) )
+            for name in ["addindex", "addvalue", "mulindex", "mulvalue", "select", "expandindex"] :
+                setatt( self, name, getattr( copy, name ).copy() )
+            return
+
         mdl = model.copy()
         for k in range( 1, nrepeat ) :
             if oper == 'add' :
@@ -172,14 +181,6 @@ class CombiModel( BracketModel ):
 
         self.combine( addCombi=addCombi, mulCombi=mulCombi )
 
-        if copy is not None :
-            setatt( self, "addindex", copy.addindex.copy() )
-            setatt( self, "addvalue", copy.addvalue.copy() )
-            setatt( self, "mulindex", copy.mulindex.copy() )
-            setatt( self, "mulvalue", copy.mulvalue.copy() )
-            setatt( self, "select", copy.select.copy() )
-            setatt( self, "expandindex", copy.expandindex.copy() )
-
         setatt( self, "_npchain", len( self.select ) )
         setatt( self, "npbase", self._npchain )
         setatt( self, "npmax", self.npbase )
@@ -187,12 +188,7 @@ class CombiModel( BracketModel ):
 
     def copy( self ):
         """ Copy method.  """
-        oper = "add"
-        if self.model._next and self.model._next._operation == 3 :
-            oper = "mul"
-
-        return CombiModel( self.model.isolateModel( 0 ), nrepeat=self.nrepeat,
-                    oper=oper, copy=self )
+        return CombiModel( self.model.copy(), copy=self )
 
     def combine( self, addCombi=None, mulCombi=None ) :
         """
-- 
2.43.0


From dc8ecfab5df75e7292b577e3c3eb540fb120b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 56/71] fix: copies of UserModel evaluated the original

---
 BayesicFitting/source/UserModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/UserModel.py b/BayesicFitting/source/UserModel.py
index 0680a63..86f7191 100644
--- a/BayesicFitting/source/UserModel.py
+++ b/BayesicFitting/source/UserModel.py
@@ -123,8 +123,11 @@ class UserModel( Model ):
         super( ).__init__( npars, ndim=ndim, copy=copy, **kwargs )
 
         if copy is not None :
-            setatt( self, "userPartial", copy.userPartial )
-            setatt( self, "userDerivative", copy.userDerivative )
+            ## numeric approximations belong to the model itself
+            numeric = ( copy.userPartial == copy.numPartial )
+            setatt( self, "userPartial", self.numPartial if numeric else copy.userPartial )
+            numeric = ( copy.userDerivative == copy.numDerivative )
+            setatt( self, "userDerivative", self.numDerivative if numeric else copy.userDerivative )
             setatt( self, "userName", copy.userName, type=str )
         else :
             self.setMethod( "userPartial", userPartial, numeric=self.numPartial )
@@ -133,7 +136,7 @@ class UserModel( Model ):
 
     def copy( self ):
         """ Copy method.  """
-        return UserModel( self.npars, self.baseResult, ndim=self.ndim, copy=self )
+        return UserModel( self.npars, self.userResult, ndim=self.ndim, copy=self )
 
     def setMethod( self, name, userMethod, numeric=None ) :
         if callable( userMethod ) :
-- 
2.43.0


From 6b17c1001528a30bbe293461ea1b74dca059a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 57/71] fix: RepeatingModel could not be copied when static,
 copies became dynamic and shared the repeated model

---
 BayesicFitting/source/RepeatingModel.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index d26922f..6280103 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -165,8 +165,9 @@ class RepeatingModel( Model, Dynamic ):
         else :
             self.minComp = copy.minComp
             self.maxComp = copy.maxComp
-            growPrior = copy.growPrior.copy()
-            same = copy.same
+            if self.isDyna :
+                growPrior = copy.growPrior.copy()
+            same = None if copy.same is None else copy.same.copy()
 
         self.setSame( same )
         self.deltaNpar = len( self.index )
@@ -183,7 +184,8 @@ class RepeatingModel( Model, Dynamic ):
 
     def copy( self ):
         """ Copy method.  """
-        return RepeatingModel( self.ncomp, self.model, isDynamic=self.isDyna, copy=self )
+        return RepeatingModel( self.ncomp, self.model.copy(), minComp=self.minComp,
+                    maxComp=self.maxComp, same=self.same, dynamic=self.isDyna, copy=self )
 
     def changeNComp( self, dn ) :
         setatt( self, "ncomp", self.ncomp + dn )
@@ -469,8 +471,8 @@ class RepeatingModel( Model, Dynamic ):
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
                                self.model.shortname() )
 
-    def hasPriors( self ) :
-        return self.model.hasPriors()
+    def hasPriors( self, isBound=True ) :
+        return self.model.hasPriors( isBound=isBound )
 
     def basePrior( self, kpar ):
         """
@@ -500,7 +502,7 @@ class RepeatingModel( Model, Dynamic ):
         """
         i,k = self.par2model( k )
         return ( self.model.getParameterName( i ) + 
-                    ( "_%d" % k if i not in self.same else "" ) )
+                    ( "_%d" % k if self.same is None or i not in self.same else "" ) )
 
     def baseParameterUnit( self, k ):
         """
-- 
2.43.0


From ff6334b0db82bb6e6f3ee2bb172969870528edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 58/71] fix: copies of error distributions shared or lost
 hyperparameters; copying reset the scale of the original

---
 BayesicFitting/source/ErrorDistribution.py            | 6 ++++--
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 --
 BayesicFitting/source/MixedErrorDistribution.py       | 5 ++++-
 BayesicFitting/source/ModelDistribution.py            | 2 +-
 BayesicFitting/source/NoiseScale.py                   | 2 +-
 BayesicFitting/source/ScaledErrorDistribution.py      | 7 ++-----
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 70d9238..a2e5183 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -102,9 +102,11 @@ class ErrorDistribution( object ):
             self.fixed = self.keepFixed( fixed )
             self.constrain = constrain
         else :                          ### TBC do we need copies here ????
-            self.hyperpar = copy.hyperpar
+            self.hyperpar = [h.copy() for h in copy.hyperpar]
+            for h,c in zip( self.hyperpar, copy.hyperpar ) :
+                h.fixed = getattr( c, "fixed", False )
             self.deltaP = copy.deltaP
-            self.fixed = self.keepFixed( copy.fixed )
+            self.fixed = None if copy.fixed is None else copy.fixed.copy()
             self.constrain = copy.constrain
 
     def copy( self ):
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 557c552..7576fd2 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -115,8 +115,6 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if copy is None :
             self.hyperpar = [NoiseScale( scale=scale, limits=slim ),
                              HyperParameter( hypar=power, limits=plim )]
-        else :
-            self.hyperpar = copy.hyperpar
 
     def copy( self ):
         """ Return copy of this.  """
diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 4dc55a8..a309818 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -98,6 +98,9 @@ class MixedErrorDistribution( ErrorDistribution ):
             fprior = UniformPrior( )
             fraction = HyperParameter( hypar=fraction, prior=fprior, limits=limits )
             self.hyperpar += [fraction]
+        else :
+            ## the hyperparameters are those of (the copies of) errdis1 and errdis2
+            self.hyperpar = errdis1.hyperpar + errdis2.hyperpar + self.hyperpar[-1:]
 
     @property
     def PARNAMES( self ) :
@@ -106,7 +109,7 @@ class MixedErrorDistribution( ErrorDistribution ):
 
     def copy( self ):
         """ Return copy of this.  """
-        return MixedErrorDistribution( self.errdis1, self.errdis2, copy=self )
+        return MixedErrorDistribution( self.errdis1.copy(), self.errdis2.copy(), copy=self )
 
     def __setattr__( self, name, value ):
         """
diff --git a/BayesicFitting/source/ModelDistribution.py b/BayesicFitting/source/ModelDistribution.py
index 6ef8682..9a353a8 100644
--- a/BayesicFitting/source/ModelDistribution.py
+++ b/BayesicFitting/source/ModelDistribution.py
@@ -99,7 +99,7 @@ class ModelDistribution( ScaledErrorDistribution ):
 
     def copy( self ):
         """ Return copy of this.  """
-        return ModelDistribution( copy=self, arbiter=self.arbiter )
+        return ModelDistribution( copy=self, arbiter=self.arbiter, **self.kwarbs )
 
     def acceptWeight( self ):
         """
diff --git a/BayesicFitting/source/NoiseScale.py b/BayesicFitting/source/NoiseScale.py
index 1a4c4b4..0aa0494 100644
--- a/BayesicFitting/source/NoiseScale.py
+++ b/BayesicFitting/source/NoiseScale.py
@@ -92,7 +92,7 @@ class NoiseScale( HyperParameter ):
         if limits is not None and prior is None :
             prior = JeffreysPrior()
         super( NoiseScale, self ).__init__( hypar=scale, isFixed=isFixed,
-                        prior=prior, limits=limits )
+                        prior=prior, limits=limits, copy=copy )
         self.minimum = False
 
         if copy is not None :
diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index cce4db6..61c1812 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -76,11 +76,8 @@ class ScaledErrorDistribution( ErrorDistribution ):
 
         if copy is None :
             self.hyperpar = NoiseScale( scale=scale, limits=limits )
-        else :
-            self.hyperpar = copy.hyperpar                   ## TBC copy ???
-
-        if limits is None :
-            self.fixed = self.keepFixed( {0: scale} )
+            if limits is None :
+                self.fixed = self.keepFixed( {0: scale} )
 
     def copy( self ):
         """ Return copy of this.  """
-- 
2.43.0


From d64379676a9388e87699d849bbd8cec7244ff398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 59/71] fix: copies of ErrorsInXandYProblem, OrderProblem and
 SalesmanProblem evaluated the original

---
 BayesicFitting/source/ErrorsInXandYProblem.py | 2 +-
 BayesicFitting/source/OrderProblem.py         | 2 +-
 BayesicFitting/source/SalesmanProblem.py      | 6 +++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index 83cbaeb..d83847a 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -125,7 +125,7 @@ class ErrorsInXandYProblem( Problem ):
             self.prior = prior
             self.setAccuracy( accuracy=accuracy, covar=covar )
         else :
-            self.prior = copy.prior
+            self.prior = None if copy.prior is None else copy.prior.copy()
             self.varxx = copy.varxx
             self.varxy = copy.varxy
             self.varyy = copy.varyy
diff --git a/BayesicFitting/source/OrderProblem.py b/BayesicFitting/source/OrderProblem.py
index 5ed7b49..03aeaee 100644
--- a/BayesicFitting/source/OrderProblem.py
+++ b/BayesicFitting/source/OrderProblem.py
@@ -80,7 +80,7 @@ class OrderProblem( Problem ):
         if copy is None :
             self.parameters = numpy.arange( self.npars, dtype=int )
         else :
-            self.parameters = copy.parameters
+            self.parameters = copy.parameters.copy()
 
 
     def copy( self ) :
diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index f52c624..c6317f4 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -91,7 +91,11 @@ class SalesmanProblem( OrderProblem ):
         super( ).__init__( xdata=xdata, weights=weights, copy=copy )
 
         if copy is not None :
-            self.distance = copy.distance
+            ## distances of the problem itself need to be bound to the copy
+            own = getattr( copy.distance, "__self__", None ) is copy
+            self.distance = getattr( self, copy.distance.__name__ ) if own else copy.distance
+            if "table" in copy.__dict__ :
+                self.table = copy.table
             self.disname = copy.disname
             self.scale = copy.scale
             self.oneway = copy.oneway
-- 
2.43.0


From 9aa3d8a28eb2362e589ad54d7d4e3b4963dee50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:57 +0000
Subject: [PATCH 60/71] fix: copies of a Walker shared the list of fitted
 parameters

---
 BayesicFitting/source/Walker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index 9f018f4..4783d93 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -116,7 +116,8 @@ class Walker( object ):
         Copy.
 
         """
-        return Walker( self.id, self.problem, self.allpars, self.fitIndex, copy=self )
+        fitIndex = None if self.fitIndex is None else self.fitIndex.copy()
+        return Walker( self.id, self.problem, self.allpars, fitIndex, copy=self )
 
     def toSample( self, logW ) :
         """
-- 
2.43.0


From 8fdd5701ec410896c5c7fa3d8c87e5255a4c089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 61/71] fix: copies of ExponentialPrior lost their lower limit

---
 BayesicFitting/source/ExponentialPrior.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ExponentialPrior.py b/BayesicFitting/source/ExponentialPrior.py
index af0ed5e..5d66527 100644
--- a/BayesicFitting/source/ExponentialPrior.py
+++ b/BayesicFitting/source/ExponentialPrior.py
@@ -84,8 +84,11 @@ class ExponentialPrior( LaplacePrior ):
 
     def copy( self ):
         """ Copy the prior """
-        return ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
+        prior = ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
             prior=self )
+        if self.hasLowLimit() :
+            prior.setLimits( self.limits )
+        return prior
 
     def shortName( self ) :
         return "ExponentialPrior"
-- 
2.43.0


From bb05c3813a0d1aec8af93f53fb4f299ad55d7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 62/71] fix: ExponentialPrior without limits was a Laplace
 below zero

---
 BayesicFitting/source/ExponentialPrior.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/BayesicFitting/source/ExponentialPrior.py b/BayesicFitting/source/ExponentialPrior.py
index 5d66527..750b4d5 100644
--- a/BayesicFitting/source/ExponentialPrior.py
+++ b/BayesicFitting/source/ExponentialPrior.py
@@ -90,6 +90,21 @@ class ExponentialPrior( LaplacePrior ):
             prior.setLimits( self.limits )
         return prior
 
+    def setLimits( self, limits=None ):
+        """
+        Set limits.
+
+        Without low limit, it is 0, where the exponential starts.
+
+        Parameters
+        ----------
+        limits : None or list of any combination of [None, float]
+            None : no limit (for both or one)
+            float : [low,high] limit
+        """
+        low, high = ( None, None ) if limits is None else limits
+        super( ).setLimits( limits=[0 if low is None else low, high] )
+
     def shortName( self ) :
         return "ExponentialPrior"
 
-- 
2.43.0


From ca10bdecb12e6c94da7873d2fb531bf3b9ba8cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 63/71] fix: SplinesDynamicModel looped for ever without room
 for knots, kept half a change when refused and left the limits

---
 BayesicFitting/source/SplinesDynamicModel.py | 97 ++++++++++++--------
 1 file changed, 57 insertions(+), 40 deletions(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 8574247..e6b16fa 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -91,6 +91,8 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
     Dont construct the knots so closely spaced, that there are no datapoints in between.
 
     """
+    MAXTRIES = 1000
+
     def __init__( self, modifiable=True, dynamic=True, growPrior=None, minKnots=2, maxKnots=None,
                         minDistance=0.01, copy=None, **kwargs ):
         """
@@ -218,37 +220,34 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
         nrknots = len( self.knots )
         npars = self.npbase
-        while True :
+        for t in range( self.MAXTRIES ) :
             newkn = rng.rand() * ( self.knots[-1] - self.knots[0] ) + self.knots[0]
             k = 1
             while self.knots[k] < newkn : k += 1
             if ( newkn - self.knots[k-1] > self.minDistance and
                  self.knots[k] - newkn   > self.minDistance ) :
                 break
-
-        self.knots = numpy.insert( self.knots, k, newkn )   ## new set of knots
+        else :
+            return False                        ## no place for another knot
 
         location = ( npars - nrknots ) // 2 + k + 1
 
         dnp = self.deltaNpar
-        self.alterParameterSize( dnp, offset, location=location )
-
-        try :
-            self.basis = self.makeBasis()
-        except :
-            print( "Grow: Could not make basis from", fmt( self.knots,max=None ) )
+        if not self.changeKnots( numpy.insert( self.knots, k, newkn ), dnp, offset, location ) :
             return False
 
         head = self._head
-        mdlpar = head.parameters
+        mdlpar = head.parameters.copy()
         kl = location + offset
 
 #        print( "SDg p1 ", fmt( mdlpar, max=None ) )
 
 #        print( "grow    ", nrknots, location, offset, k, kl, newkn )
 
-        mdlpar[kl-1] *= 0.7
-        value = mdlpar[kl-1]
+        value = 0.7 * mdlpar[kl-1]
+        if self.hasPriors( isBound=False ) and head.getPrior( kl - 1 ).isOutOfLimits( value ) :
+            value = mdlpar[kl-1]
+        mdlpar[kl-1] = value
         mdlpar = self.alterParameters( mdlpar, location, dnp, offset, value=value )
 
         setatt( self._head, "parameters", mdlpar )
@@ -259,6 +258,39 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
         return True
 
+    def changeKnots( self, knots, dnp, offset, location ) :
+        """
+        Replace the knots and make a new basis.
+
+        When no basis can be made, everything stays as it was.
+
+        Parameters
+        ----------
+        knots : array_like
+            new set of knots
+        dnp : int
+            change in the number of parameters
+        offset : int
+            index where the params of the Dynamic model start
+        location : int
+            where the change takes place
+
+        Return
+        ------
+        bool :  succes
+
+        """
+        oldknots = self.knots
+        self.knots = knots
+        self.alterParameterSize( dnp, offset, location=location )
+        try :
+            self.basis = self.makeBasis()
+        except Exception :
+            self.knots = oldknots
+            self.alterParameterSize( -dnp, offset, location=location )
+            return False
+
+        return True
 
     def shrink( self, offset=0, rng=None, **kwargs ):
         """
@@ -278,7 +310,7 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         """
         nrknots = len( self.knots )
         npars = self.npbase
-        if nrknots <= self.minKnots :
+        if nrknots <= self.minKnots or nrknots <= 2 :
             return False
 
 #        print( "SDs p0 ", fmt( self._head.parameters, max=None ) )
@@ -288,36 +320,25 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         r1 = ( self.knots[k] - self.knots[k-1] ) / dis
         r2 = ( self.knots[k+1] - self.knots[k] ) / dis
 
-        self.knots = numpy.delete( self.knots, k )      ## new set of knots
-
         location = ( npars - nrknots ) // 2 + k + 1
         dnp = - self.deltaNpar
         kl = offset + location - 1
         head = self._head
         mdlpar = head.parameters
+        prior = head.getPrior( kl )
 
         ## new value is the weighted average of the joined parameters
         value = 1.4 * ( mdlpar[kl] * r1 + mdlpar[kl+1] * r2 )
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
-            value = ( self.getPrior( kl ).stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
-
-        if self.getPrior( kl ).isOutOfLimits( value ) :
-            print( "New shrink value out of limit" )
-            print( "Knots ", k, fmt( r1 ), fmt( r2 ), fmt( dis ), fmt( self.knots, max=None ) )
-            print( "Pars  ", fmt( mdlpar, max=None ) )
-            print( "Old   ", kl, fmt( mdlpar[kl:kl+2] ), "  New  ", fmt( value ) )
+        if prior.isOutOfLimits( value ) :
+            value = ( prior.stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
 
-            raise ValueError( "Out of limits Prior" )
+        if prior.isOutOfLimits( value ) :
             return False
 
 #        print( "SD  p1 ", npars, nrknots, k, location, kl )
 
-        self.alterParameterSize( dnp, offset, location=location )
-        try :
-            self.basis = self.makeBasis()
-        except :
-            print( "Shrk: Could not make basis from", fmt( self.knots,max=None ) )
+        if not self.changeKnots( numpy.delete( self.knots, k ), dnp, offset, location ) :
             return False
 
         mdlpar = self.alterParameters( mdlpar, location, dnp, offset )
@@ -336,14 +357,14 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
     def vary( self, rng=None, location=None ) :
 
         nrknots = len( self.knots )
-        if nrknots <= 2 or location == 0 or location == nrknots :
+        if nrknots <= 2 or location == 0 or location == nrknots - 1 :
             return False
 
         kk = location if location is not None else rng.randint( nrknots - 2 ) + 1
 
         newkn = self.knots[kk]
 
-        while True :
+        for t in range( self.MAXTRIES ) :
             rn = ( rng.rand() + rng.rand() ) - 1
             newkn += rn * ( ( newkn - self.knots[kk-1] ) if rn < 0 else
                             ( self.knots[kk+1] - newkn ) )
@@ -352,18 +373,14 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
             if ( newkn - self.knots[kk-1] > self.minDistance and
                  self.knots[kk+1] - newkn > self.minDistance ) :
                 break
+        else :
+            return False                        ## no place to move to
 
 #        print( "SDM   ", fmt( self.knots, max=None ), kk, newkn )
 
-        self.knots[kk] = newkn
-        try :
-            self.basis = self.makeBasis()
-        except :
-            print( "Vary: Could not make basis from", fmt( self.knots,max=None ) )
-            raise
-            return False
-
-        return True
+        knots = self.knots.copy()
+        knots[kk] = newkn
+        return self.changeKnots( knots, 0, 0, None )
 
     def varyAlt( self, offset=0, rng=None, **kwargs ) :
         """
-- 
2.43.0


From 646df61aa4f3c2af33712e8c573d3f250e725f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 64/71] fix: static models hid dynamic and modifiable ones
 further on in the chain

---
 BayesicFitting/source/BirthEngine.py       |  2 +-
 BayesicFitting/source/DeathEngine.py       |  2 +-
 BayesicFitting/source/DecisionTreeModel.py |  2 +-
 BayesicFitting/source/Dynamic.py           |  9 ++++++++-
 BayesicFitting/source/Model.py             | 11 +++++++++++
 BayesicFitting/source/Modifiable.py        |  8 ++++++--
 BayesicFitting/source/RepeatingModel.py    | 10 +++++-----
 BayesicFitting/source/StartEngine.py       |  2 +-
 BayesicFitting/source/StructureEngine.py   | 12 ++++++++----
 9 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/BirthEngine.py b/BayesicFitting/source/BirthEngine.py
index babd4e4..4d2a8a2 100644
--- a/BayesicFitting/source/BirthEngine.py
+++ b/BayesicFitting/source/BirthEngine.py
@@ -114,7 +114,7 @@ class BirthEngine( Engine ):
         model = problem.model
         model.parameters = allp[:model.npars]
 
-        while model is not None and not isinstance( model, Dynamic ) :
+        while model is not None and not ( isinstance( model, Dynamic ) and model.dynamic ) :
             off += model.npbase
             model = model._next
 
diff --git a/BayesicFitting/source/DeathEngine.py b/BayesicFitting/source/DeathEngine.py
index 940ecee..fb3f358 100644
--- a/BayesicFitting/source/DeathEngine.py
+++ b/BayesicFitting/source/DeathEngine.py
@@ -113,7 +113,7 @@ class DeathEngine( Engine ):
         ftry = walker.fitIndex
 
         off = 0
-        while model is not None and not isinstance( model, Dynamic ) :
+        while model is not None and not ( isinstance( model, Dynamic ) and model.dynamic ) :
             off += model.npbase
             model = model._next
 
diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 1d5a26b..db708bf 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -744,7 +744,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         bool :  succes
 
         """
-        if not self.isDynamic() :
+        if not self.dynamic :
             return False
 
         if self.maxComp is not None and self.ncomp >= self.maxComp:
diff --git a/BayesicFitting/source/Dynamic.py b/BayesicFitting/source/Dynamic.py
index 76ee319..eafb6ff 100644
--- a/BayesicFitting/source/Dynamic.py
+++ b/BayesicFitting/source/Dynamic.py
@@ -50,6 +50,8 @@ class Dynamic( object ):
         ExponentialPrior (scale=2) if  maxOrder is None else UniformPrior
 
     """
+    dynamic = True          ## whether this model itself is dynamic
+
     def __init__( self, dynamic=True ) :
         """
         Constructor for Dynamic
@@ -62,7 +64,12 @@ class Dynamic( object ):
         setatt( self, "dynamic", dynamic )
 
     def isDynamic( self ) :
-        return self.dynamic
+        """
+        Whether this model, or one further on in the chain, is dynamic.
+        """
+        if self.dynamic or not hasattr( super( ), "isDynamic" ) :
+            return self.dynamic
+        return super( ).isDynamic()
 
     def setGrowPrior( self, growPrior=None, min=1, max=None, name="Comp" ) :
         """
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 13fe374..a240aae 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1003,6 +1003,17 @@ class Model( FixedModel ):
 
         return False
 
+    def isModifiable( self ) :
+        """
+        Return whether the model, or one further on in the chain, can change its structure.
+        """
+        if super( Model, self ).isModifiable() :
+            return True
+        elif self._next is not None :
+            return self._next.isModifiable()
+
+        return False
+
     #  *****PRIOR***************************************************************
     def hasPriors( self, isBound=True ) :
         """
diff --git a/BayesicFitting/source/Modifiable.py b/BayesicFitting/source/Modifiable.py
index a14cbff..58ce377 100644
--- a/BayesicFitting/source/Modifiable.py
+++ b/BayesicFitting/source/Modifiable.py
@@ -46,8 +46,12 @@ class Modifiable( object ):
         setatt( self, "modifiable", modifiable )
 
     def isModifiable( self ) :
-        return self.modifiable
-
+        """
+        Whether this model, or one further on in the chain, is modifiable.
+        """
+        if self.modifiable or not hasattr( super( ), "isModifiable" ) :
+            return self.modifiable
+        return super( ).isModifiable()
 
     def vary( self, location=None, rng=None, **kwargs ) :
         """
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 6280103..9e250cf 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -152,8 +152,8 @@ class RepeatingModel( Model, Dynamic ):
 
         np = ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
         self.isDyna = dynamic and ( maxComp is None or minComp < maxComp )
-
         super( RepeatingModel, self ).__init__( np, copy=copy, **kwargs )
+        setatt( self, "dynamic", self.isDyna )
 
         self.ncomp = ncomp
         self.model = model
@@ -172,7 +172,7 @@ class RepeatingModel( Model, Dynamic ):
         self.setSame( same )
         self.deltaNpar = len( self.index )
 
-        if self.isDynamic() :
+        if self.isDyna :
             if growPrior is None :
                 if maxComp is None :
                     self.growPrior = ExponentialPrior( scale=2 )
@@ -226,7 +226,7 @@ class RepeatingModel( Model, Dynamic ):
         bool :  succes
 
         """
-        if not self.isDynamic() :
+        if not self.isDyna :
             return False
 
         if self.maxComp is not None and self.ncomp >= self.maxComp:
@@ -270,7 +270,7 @@ class RepeatingModel( Model, Dynamic ):
         bool : succes
 
         """
-        if ( not self.isDynamic() ) or self.ncomp <= self.minComp :
+        if ( not self.isDyna ) or self.ncomp <= self.minComp :
             return False
 
         location = self.npbase
@@ -335,7 +335,7 @@ class RepeatingModel( Model, Dynamic ):
             super( RepeatingModel, self ).__setattr__( name, value )
 
     def isDynamic( self ) :
-        return self.isDyna
+        return self.isDyna or super( ).isDynamic()
 
     #  *************************************************************************
     def baseResult( self, xdata, params ):
diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index 4179293..ee18861 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -100,7 +100,7 @@ class StartEngine( Engine ):
         if isdynamic :
             ## find the model in the chain that is actually dynamic
             off = 0
-            while model is not None and not isinstance( model, Dynamic ) :
+            while model is not None and not ( isinstance( model, Dynamic ) and model.dynamic ) :
                 off += model.npbase
                 model = model._next
 
diff --git a/BayesicFitting/source/StructureEngine.py b/BayesicFitting/source/StructureEngine.py
index 787b0e1..232d9de 100644
--- a/BayesicFitting/source/StructureEngine.py
+++ b/BayesicFitting/source/StructureEngine.py
@@ -100,7 +100,11 @@ class StructureEngine( Engine ):
         self.reportCall()
 
         t = 0
-        perm = self.rng.permutation( self.walkers[kw].problem.model.ncomp - 2 )     ## TBC
+        model = self.walkers[kw].problem.model
+        while not ( isinstance( model, Modifiable ) and model.modifiable ) :
+            model = model._next
+
+        perm = self.rng.permutation( model.ncomp - 2 )     ## TBC
         for p in perm :
             update = len( self.walkers ) if append else kw
             dt = self.executeOnce( kw, lowLhood, update, location=p+1 )
@@ -123,11 +127,11 @@ class StructureEngine( Engine ):
 
         if self.verbose > 4 :
             print( "SEN0  ", walker.id, walker.parent, len( ptry ), len( ftry ), walker.logL )
-            print( "      ", fmt( problem.model.knots, max=None ) )
+            print( "      ", fmt( getattr( problem.model, "knots", None ), max=None ) )
 
         off = 0
         model = problem.model
-        while model is not None and not isinstance( model, Modifiable ) :
+        while model is not None and not ( isinstance( model, Modifiable ) and model.modifiable ) :
             off += model.npbase
             model = model._next
 
@@ -145,7 +149,7 @@ class StructureEngine( Engine ):
 
         if self.verbose > 4 :
             print( "SEN3  ", fmt( ptry, max=None ), Ltry, lowLhood )
-            print( "      ", fmt( problem.model.knots, max=None ) )
+            print( "      ", fmt( getattr( problem.model, "knots", None ), max=None ) )
 
         if Ltry >= lowLhood:
             self.reportSuccess()
-- 
2.43.0


From a3b135537076c3760d2cd34ed5fc9fce0a64517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 65/71] fix: a RepeatingModel of 0 components had parameters
 when some are the same

---
 BayesicFitting/source/RepeatingModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 9e250cf..293043e 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -150,7 +150,7 @@ class RepeatingModel( Model, Dynamic ):
         if ncomp < minComp or ( maxComp is not None and ncomp > maxComp ) :
             raise ValueError( "ncomp outside range of [min..max] range" )
 
-        np = ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
+        np = ncomp * model.npchain - max( ncomp - 1, 0 ) * Tools.length( same )
         self.isDyna = dynamic and ( maxComp is None or minComp < maxComp )
         super( RepeatingModel, self ).__init__( np, copy=copy, **kwargs )
         setatt( self, "dynamic", self.isDyna )
-- 
2.43.0


From bf7aa7651edea57b5a627e8e1d63297a6d4b5157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 66/71] fix: decision trees kept split and mask, empty masks
 and parameters of other leaves after variation and death

---
 BayesicFitting/source/DecisionTreeModel.py | 27 ++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index db708bf..0e455f2 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -216,7 +216,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
     def copy( self ):
         """ Copy method.  """
 
-        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable )
+        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable, dynamic=self.dynamic )
 
         if self.dimension is not None :
             setatt( dtm, "dimension", self.dimension )
@@ -256,8 +256,10 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         if itype == 0 :         ## float
             setatt( self, "split", split )
+            setatt( self, "mask", None )
         else :                  ## boolean (1) or categorial (>1)
             setatt( self, "mask", int( split * ( 0x1 << itype ) + 1 ) )
+            setatt( self, "split", None )
 
     def isLeaf( self ) :
         """
@@ -323,7 +325,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         kpar = 0
         if self.isLeaf() :
-            return params[0]
+            return numpy.full( ndata, params[0] )
 
         res, kpar = self.recursiveResult( xdata, params, kpar, plist, res )
 
@@ -773,7 +775,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         ## count leafs (parameters) and branches (components)
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
+        dnp = cleaf - self.npbase
 
         ## duplicate the parameter
         value = self._head.parameters[offset+location]
@@ -825,16 +827,21 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         if parent is None :
             return False
 
+        ## only the last one of the parameters below parent is kept
+        leafs = [child for child in self.walk() if child.isLeaf()]
+        below = [child for child in parent.walk() if child.isLeaf()]
+        location = next( k for k, child in enumerate( leafs ) if child is below[0] )
 
         ## Erase the branch by putting the leafs to None
         setatt( parent, "left", None )
         setatt( parent, "rite", None )
         setatt( parent, "split", None )
+        setatt( parent, "mask", None )
         setatt( parent, "dimension", None )
 
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
-        location = min( location - dnp, self.npars )
+        dnp = cleaf - self.npbase
+        location -= dnp
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -881,25 +888,31 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 kdim = parent.dimension
 
             itype = Tools.getItem( self.itypes, kdim )
+            isnew = itype != Tools.getItem( self.itypes, parent.dimension )
             if itype == 0 :
                 if parent.split is None :               ## make new split
                     split = numpy.mean( rng.rand( self.nsplit ) )
                 else :                                  ## shift nearby
                     split = ( self.nsplit * parent.split + rng.rand() ) / ( self.nsplit + 1 )
                 setatt( parent, "split", split )
+                setatt( parent, "mask", None )
             elif itype == 1 :                           ## make new mask
-                if parent.mask is None :
+                if parent.mask is None or isnew :
                     mask = rng.randint( 2 ) + 1
                 else :                                  ## exchange bits
                     mask = 2 if parent.mask == 1 else 1
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
             else :
-                if parent.mask is None :                ## make new mask
+                if parent.mask is None or isnew :       ## make new mask
                     mask = rng.randint( 0x1 << itype ) + 1
                 else :                                  ## change 1 bit
                     kr = rng.randint( itype )
                     mask = parent.mask ^ ( 0x1 << kr )
+                    if mask == 0 :                      ## never none
+                        mask = parent.mask
                 setatt( parent, "mask", mask )
+                setatt( parent, "split", None )
 
         else :
             parent = self.findBranch( location )
-- 
2.43.0


From fc6475b26c564b01d44a850ddb7d8e376829721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:27 +0000
Subject: [PATCH 67/71] fix: varyAlt of a SplinesDynamicModel stayed half done
 when refused; shrink failed without priors

---
 BayesicFitting/source/SplinesDynamicModel.py | 27 ++++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index e6b16fa..90b4de7 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -325,16 +325,17 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         kl = offset + location - 1
         head = self._head
         mdlpar = head.parameters
-        prior = head.getPrior( kl )
 
         ## new value is the weighted average of the joined parameters
         value = 1.4 * ( mdlpar[kl] * r1 + mdlpar[kl+1] * r2 )
 
-        if prior.isOutOfLimits( value ) :
-            value = ( prior.stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
+        if self.hasPriors( isBound=False ) :
+            prior = head.getPrior( kl )
+            if prior.isOutOfLimits( value ) :
+                value = ( prior.stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
 
-        if prior.isOutOfLimits( value ) :
-            return False
+            if prior.isOutOfLimits( value ) :
+                return False
 
 #        print( "SD  p1 ", npars, nrknots, k, location, kl )
 
@@ -396,8 +397,18 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         kwargs : keyword arguments
             for specific implementations
         """
-        suc = self.grow( offset=offset, rng=rng, force=True )
-        suc = suc and self.shrink( offset=offset, rng=rng )
-        return suc
+        old = ( self.knots, self.basis, self.parNames )
+        mdlpar = self._head.parameters.copy()
+        if not self.grow( offset=offset, rng=rng, force=True ) :
+            return False
+        if self.shrink( offset=offset, rng=rng ) :
+            return True
+
+        ## leave the model as it was
+        self.alterParameterSize( -self.deltaNpar, offset )
+        self.knots, self.basis = old[:2]
+        setatt( self, "parNames", old[2] )
+        setatt( self._head, "parameters", mdlpar )
+        return False
 
 
-- 
2.43.0


From e867801fee2a50efbbb694701318bf828c6b184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:54 +0000
Subject: [PATCH 68/71] fix: NearEngine took distances of the wrong nodes when
 spherical or tabulated, and spoilt the cache of the problem

---
 BayesicFitting/source/NearEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index ee47033..f20ead3 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -117,13 +117,13 @@ class NearEngine( OrderEngine ):
         n0 = ptry[0]
         nsel = [n0,ptry[1]]
         if self.nearest[n0] < 0 :                                   # not yet calculated
-            dmin = problem.distance( xd[nsel,:], [0,1] )[0]         # need only one distance
+            dmin = problem.distance( xd, nsel )[0]         # need only one distance
 #            print( 0, fmt( nsel ), fmt( dmin ), fmt( dmin ) )
         
             kmin = 1
             for k in range( 2, np ) :                               # find nearest
                 nsel[1] = ptry[k]
-                d = problem.distance( xd[nsel,:], [0,1] )[0]
+                d = problem.distance( xd, nsel )[0]
 #                print( k, fmt( nsel ), fmt( d ), fmt( dmin ) )
                 if d < dmin :
                     dmin = d
-- 
2.43.0


From 2cf4ce3f470d4d5eeac76b2ea1eaa0a180931224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:57 +0000
Subject: [PATCH 69/71] fix: RandomEngine took the ranges of other parameters
 when some are kept

---
 BayesicFitting/source/RandomEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index 9d3fa11..0caea29 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -121,7 +121,7 @@ class RandomEngine( Engine ):
         t = 0
         for tt in range( self.nstep ) :
             ptry = param.copy()
-            uval = self.rng.uniform( um, ux, nap )
+            uval = self.rng.uniform( um, ux, nap )[fi]
             ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
 
             Ltry = self.errdis.logLikelihood( problem, ptry )
-- 
2.43.0


From 2df54bc5aa75578d2d498a7038f1242c2fc0c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:51 +0000
Subject: [PATCH 70/71] fix: the last walkers of NestedSampler had half of
 their prior mass

Every discarded walker was given 1 - exp(-1/N) of the prior mass, while
only N - k walkers are alive when the k-th of a step is discarded. In
the last step, where all walkers are discarded, half of the prior mass
that is left was lost that way: the evidence was too small,
systematically.
---
 BayesicFitting/source/NestedSampler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 82609e7..4d27d66 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -437,7 +437,7 @@ class NestedSampler( object ):
         self.logZ = -sys.float_info.max
         self.logdZ = 0
         self.info = 0
-        self.logWidth = math.log( 1.0 - math.exp( -1.0 / self.ensemble ) )
+        self.logWidth = 0.0                     # log of the prior mass that is left
 
 #        TBD put self.logWidth in the saved file too
 #        if self.optionalRestart() :
@@ -777,7 +777,8 @@ class NestedSampler( object ):
 
         for kw in range( worst ) :
             logL = self.walkers[kw].logL + self.walkers[kw].logPrior
-            logWeight = self.logWidth + logL
+            live = self.ensemble - kw           # walkers alive when this one is discarded
+            logWeight = self.logWidth + math.log( 1.0 - math.exp( -1.0 / live ) ) + logL
 
             # update evidence, logZ
             logZnew = numpy.logaddexp( self.logZ, logWeight )
@@ -794,7 +795,7 @@ class NestedSampler( object ):
             smpl = self.walkers[kw].toSample( logWeight )
             self.samples.add( smpl )
 
-            self.logWidth -= 1.0 / ( self.ensemble - kw )
+            self.logWidth -= 1.0 / live
 
         self.logdZ = logWeight - self.logZ
 
-- 
2.43.0


From f4ab5f9b8715fd5e5bbc91240ce53c3b91ff5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:02 +0000
Subject: [PATCH 71/71] fix: LevenbergMarquardtFitter took its first gradient
 at other parameters than par0

---
 BayesicFitting/source/BaseFitter.py               | 7 +++++--
 BayesicFitting/source/LevenbergMarquardtFitter.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 85baf8c..38e31e0 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -540,7 +540,7 @@ class BaseFitter( object ):
 
 
     #  *****VECTOR**************************************************************
-    def getVector( self, ydata, index=None ):
+    def getVector( self, ydata, index=None, params=None ):
         """
         Return the &beta;-vector.
 
@@ -553,11 +553,14 @@ class BaseFitter( object ):
             multiplied by weights and/or appended by normdata.
         index : list of int
             index of parameters to be fixed
+        params : array_like
+            parameters at which the design matrix is taken.
+            Default: the parameters of the model
 
         """
         if self.model.isNullModel() :
             return numpy.asarray( 0 )
-        design = self.getDesign( index=index )
+        design = self.getDesign( params=params, index=index )
 
         return numpy.inner( design.transpose(), ydata )
 
diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 7c2e142..0d28739 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -245,7 +245,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             nres = ( self.normdata - numpy.inner( self.normdfdp, params ) ) * self.normweight
             residu = numpy.append( residu, nres )
 
-        vector = self.getVector( residu, index=fi )
+        vector = self.getVector( residu, index=fi, params=params )
 
         nfit = len( fi )
         fitpar = params[fi]
-- 
2.43.0

