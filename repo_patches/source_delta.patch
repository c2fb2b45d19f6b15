From 628bd74231503c16776ded305f25e86df5e0d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 01/26] fix: report failures to write output files

Nothing looked at whether the data written to an output file reached it, so a
full disk or an I/O error left truncated results behind an exit status of zero.
Check each output file when it is closed, and the opening of the media dumps.
---
 src/block.c     |  2 +-
 src/gmsh.c      |  2 +-
 src/gnuplot.c   |  2 +-
 src/grid.c      |  8 +++++---
 src/line.c      |  2 +-
 src/message.c   | 19 +++++++++++++++++++
 src/message.h   |  2 ++
 src/observer.c  | 20 ++++++++++++++------
 src/planewave.c |  2 +-
 src/source.c    |  2 +-
 src/surface.c   |  4 ++--
 11 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/block.c b/src/block.c
index 2175baa..932c6ce 100644
--- a/src/block.c
+++ b/src/block.c
@@ -329,7 +329,7 @@ void gnuplotBlocks( void )
     gnuplotBoundingBox( outputFile , item->mbbox );
   }
 
-  fclose( outputFile );
+  closeOutputFile( outputFile , blockFileName );
 
   return;
 
diff --git a/src/gmsh.c b/src/gmsh.c
index 05fd412..3dbdbaa 100644
--- a/src/gmsh.c
+++ b/src/gmsh.c
@@ -294,7 +294,7 @@ void gmshWrite( void )
   
   message( MSG_LOG , 0 , "Wrote elements" );
   
-  fclose( mshFile );
+  closeOutputFile( mshFile , mshFileName );
 
   message( MSG_LOG , 0 , "Closed file" );
     
diff --git a/src/gnuplot.c b/src/gnuplot.c
index 9e20bb9..c5108ca 100644
--- a/src/gnuplot.c
+++ b/src/gnuplot.c
@@ -133,7 +133,7 @@ void gnuplotScript( bool isExternalSurfaces )
   fprintf( scriptFile , "set term pop\n" );
   fprintf( scriptFile , "replot\n");
 
-  fclose( scriptFile );
+  closeOutputFile( scriptFile , scriptFileName );
 
   return;
 
diff --git a/src/grid.c b/src/grid.c
index d3983f1..946973c 100644
--- a/src/grid.c
+++ b/src/grid.c
@@ -1171,7 +1171,7 @@ void writeLines( char *fileName , int n , real *v )
     message( MSG_ERROR , 0 , "*** Error: Failed to open %s file.\n" , fileName );
   for( int i = 0 ; i < n ; i++ )
     fprintf( fp , "%d %e\n" , i , v[i] );
-  fclose( fp );
+  closeOutputFile( fp , fileName );
 
   return;
 
@@ -1373,7 +1373,7 @@ void gnuplotGridLines( void )
     gnuplotBoundingBox( outputFile , ibbox );
   }
 
-  fclose( outputFile );
+  closeOutputFile( outputFile , linesFileName );
 
   return;
 
@@ -1651,6 +1651,8 @@ void dumpMediaOnGrid( FieldComponent field )
   }
 
   fp = fopen( fileName , "w" );
+  if( !fp )
+    message( MSG_ERROR , 0 , "*** Error: Failed to open media output file %s\n" , fileName );
  
   for ( int k = gobox[ZHI] ; k >= gobox[ZLO] - 1; k-- )
   {
@@ -1690,7 +1692,7 @@ void dumpMediaOnGrid( FieldComponent field )
     }
   }
 
-  fclose( fp );
+  closeOutputFile( fp , fileName );
 
   return;
   
diff --git a/src/line.c b/src/line.c
index a860f8e..599b368 100644
--- a/src/line.c
+++ b/src/line.c
@@ -286,7 +286,7 @@ void gnuplotLines( void )
     gnuplotBoundingBox( outputFile , item->mbbox );
   }
 
-  fclose( outputFile );
+  closeOutputFile( outputFile , lineFileName );
 
   return;
 
diff --git a/src/message.c b/src/message.c
index b1210d4..e24e33a 100644
--- a/src/message.c
+++ b/src/message.c
@@ -23,6 +23,7 @@
  */
 
 #include <errno.h>
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -117,3 +118,21 @@ void stopMessaging( void )
   return;
 
 }
+
+/* Close an output file. It is an error if any of the output could not be written. */
+void closeOutputFile( FILE *file , const char *fileName )
+{
+
+  bool isFailed = ferror( file );
+
+  errno = 0;
+
+  if( fclose( file ) != 0 )
+    isFailed = true;
+
+  if( isFailed )
+    message( MSG_ERROR , errno , "*** Error: Failed to write output file %s\n" , fileName );
+
+  return;
+
+}
diff --git a/src/message.h b/src/message.h
index bb0ae0b..916db69 100644
--- a/src/message.h
+++ b/src/message.h
@@ -26,6 +26,7 @@
 #define _MESSAGE_H_
 
 #include <errno.h>
+#include <stdio.h>
 
 typedef enum msg_type {
 
@@ -42,6 +43,7 @@ typedef enum msg_type {
 void startMessaging( char *logFileName , MessageType minimumLevel , char *progName , int versionMajor , int versionMinor , int versionPatch );
 void message(  MessageType status , int errnum , const char *message , ... );
 void stopMessaging( void );
+void closeOutputFile( FILE *file , const char *fileName );
 
 #endif
 
diff --git a/src/observer.c b/src/observer.c
index d7c81c4..d402517 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -801,11 +801,15 @@ void updateObserverAsciiTime( ObserverItem *item , unsigned long tstepNum , real
 void deallocObserverAsciiTime( ObserverItem *item )
 {
   
+  char fileName[PATH_SIZE];
+
+  sprintf( fileName , "%s_%s_td.asc" , item->quantity == OQ_WF ? "wf" : "eh" , item->name );
+
   switch( item->quantity )
   {
     case OQ_WF:
     case OQ_EH:
-      fclose( item->outputFile );
+      closeOutputFile( item->outputFile , fileName );
       break;
     default:
       assert( 0 );
@@ -902,11 +906,15 @@ void updateObserverAsciiFreq( ObserverItem *item , unsigned long tstepNum , real
 void deallocObserverAsciiFreq( ObserverItem *item )
 {
   
+  char fileName[PATH_SIZE];
+
+  sprintf( fileName , "%s_%s_fd.asc" , item->quantity == OQ_WF ? "wf" : "eh" , item->name );
+
   switch( item->quantity )
   {
     case OQ_WF:
     case OQ_EH:
-      fclose( item->outputFile );
+      closeOutputFile( item->outputFile , fileName );
       break;
     default:
       assert( 0 );
@@ -1127,7 +1135,7 @@ void writeProcessDat( void )
     message( MSG_WARN , 0 , "*** Warning: process.dat contains no valid observers!\n" );  
   }
 
-  fclose( processFile );
+  closeOutputFile( processFile , "process.dat" );
 
   return;
 
@@ -1202,10 +1210,10 @@ void deallocBinaryObservers( void )
 {
 
   /* Close processing tools excitation file. */
-  fclose( exciteFile );
+  closeOutputFile( exciteFile , "excite.dat" );
  
   /* Close impulse data file. */ 
-  fclose( impulseDatFile );
+  closeOutputFile( impulseDatFile , "impulse.dat" );
   
   return;
 
@@ -1234,7 +1242,7 @@ void gnuplotObservers( void )
     gnuplotBoundingBoxNodes( outputFile , item->mbbox , item->step );
   }
 			
-  fclose( outputFile );
+  closeOutputFile( outputFile , observerFileName );
 
   return;
 
diff --git a/src/planewave.c b/src/planewave.c
index 7edcf51..56e8f30 100644
--- a/src/planewave.c
+++ b/src/planewave.c
@@ -1162,7 +1162,7 @@ void gnuplotPlaneWaves( void )
 
   }
 
-  fclose (outputFile);
+  closeOutputFile( outputFile , planeWaveFileName );
 
   return;
 
diff --git a/src/source.c b/src/source.c
index ded5da7..170a683 100644
--- a/src/source.c
+++ b/src/source.c
@@ -841,7 +841,7 @@ void gnuplotSources( void )
     gnuplotBoundingBoxArrow( outputFile , item->mbbox , item->field );
   }
 
-  fclose (outputFile);
+  closeOutputFile( outputFile , sourceFileName );
 
   return;
 
diff --git a/src/surface.c b/src/surface.c
index 98056d8..0d4facd 100644
--- a/src/surface.c
+++ b/src/surface.c
@@ -875,7 +875,7 @@ void gnuplotExternalSurfaces( void )
   getFaceOfBoundingBox( bbox , mbox , YHI );
   gnuplotBoundingBox( outputFile , bbox );
  
-  fclose( outputFile );
+  closeOutputFile( outputFile , externalFileName );
 
   return;
 
@@ -900,7 +900,7 @@ void gnuplotInternalSurfaces( void )
     gnuplotBoundingBox( outputFile , item->mbbox );
   }
 
-  fclose( outputFile );
+  closeOutputFile( outputFile , surfaceFileName );
 
   return;
 
-- 
2.43.0


From d625096dd21a8a80a61f83ddebe591ebf858b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 02/26] fix: reject a mesh file that ends before its EN card

A mesh that was cut short was accepted and simulated with whatever had been
read of it, and cards after the EN card were looked up past the end of the
section table.
---
 src/mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh.c b/src/mesh.c
index afcd59d..ca7cacd 100644
--- a/src/mesh.c
+++ b/src/mesh.c
@@ -326,6 +326,10 @@ void readMesh( char fileName[] )
     if( thisCardType == CT_ERROR )
       message( MSG_ERROR , 0 , "*** Error: Invalid card on line %lu:\n  %s" , lineNumber , rawLine ); 
 
+    /* Nothing may follow the end of the last section. */
+    if( sectionNumber == NUM_SECTIONS )
+      message( MSG_ERROR , 0 , "*** Error: Card type %s on line %lu is after the end of the mesh\n" , CT_STRING[thisCardType] , lineNumber );
+
     /* Check card is valid in this section. */
     if( !isValidInSection[sectionNumber][thisCardType] )
       message( MSG_ERROR , 0 , "*** Error: Card type %s on line %lu is invalid in mesh section %d\n" , CT_STRING[thisCardType] , lineNumber , sectionNumber );
@@ -396,6 +400,10 @@ void readMesh( char fileName[] )
 
   } /* End of switch. */
 
+  /* A mesh that stops before its end has lost part of the model. */
+  if( ferror( meshFilePointer ) || sectionNumber != NUM_SECTIONS )
+    message( MSG_ERROR , 0 , "*** Error: Mesh file %s is incomplete - no %s card found after line %lu\n" , fileName , CT_STRING[CT_EN] , lineNumber );
+
   fclose(meshFilePointer);
 
   reportMesh();
-- 
2.43.0


From 3dd6121d3d38ee646ecc93817ac833e5bc04a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 03/26] fix: reject zero time steps

With no time steps the loop bound wraps round and the solver never ends.
---
 src/simulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation.c b/src/simulation.c
index 55a5bcd..db2d8a6 100644
--- a/src/simulation.c
+++ b/src/simulation.c
@@ -92,9 +92,9 @@ bool parseNT( char *line )
   if( sscanf( line , "%lu" , &numSteps ) != 1 )
     return false;  
 
-  if( numSteps < 0UL )
+  if( numSteps < 1UL )
   {
-    message( MSG_LOG , 0 , "  Number of time steps must be >= 0!\n" );
+    message( MSG_LOG , 0 , "  Number of time steps must be >= 1!\n" );
     return false;
   }
   else
-- 
2.43.0


From f5fe81e6d9bfdb851e1c5fe7f09aaf1da208367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 04/26] fix: check every value read from a pole-residue matrix
 file

A file that ended early left poles and asymptotes at whatever the last
successful read had given, and the surface was simulated with them.
---
 src/filter.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/filter.c b/src/filter.c
index c57dcc8..b8d10c7 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -168,13 +168,16 @@ yfPoleResidueM yfReadPoleResidueM( char prmFileName[] )
     for( int col = 0 ; col < n ; col++ )
     {
 
-      numScanned = fscanf( fp , "%d" , &numPoles );
-      numScanned = fscanf( fp , "%lf" , &asymp );
+      numScanned = fscanf( fp , "%d %lf" , &numPoles , &asymp );
+      if( numScanned != 2 || numPoles < 0 || ferror( fp ) )
+        message( MSG_ERROR , 0 , "error reading element (%d,%d) from %s.\n" , row , col , prmFileName );
       prm.pr[row][col] = yfAllocPoleResidue( numPoles , asymp , NULL , NULL );
 
       for( int k = 0 ; k < numPoles ; k++ )
       {
         numScanned = fscanf( fp , "%lf %lf %lf %lf" , &pole_r , &pole_i , &residue_r , &residue_i );
+        if( numScanned != 4 || ferror( fp ) )
+          message( MSG_ERROR , 0 , "error reading pole %d of element (%d,%d) from %s.\n" , k , row , col , prmFileName );
         prm.pr[row][col].poles[k] = pole_r + I * pole_i;
         prm.pr[row][col].residues[k] = residue_r + I * residue_i;
       }
-- 
2.43.0


From 8368d30048726f59d30f0830a676e009bb579080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 05/26] fix: reject an incomplete record in an external
 waveform file

A file that ended between the two numbers of a record was read as if the record
were not there, and an empty file was taken as a table with no entries.
---
 src/waveform.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/waveform.c b/src/waveform.c
index f048bbe..192c2b0 100644
--- a/src/waveform.c
+++ b/src/waveform.c
@@ -514,6 +514,7 @@ unsigned long loadExternalWaveform( char *fileName , real ***table )
   FILE *fp;
   double tmp1 = 0.0;
   double tmp2 = 0.0;
+  int numScanned = 0;
   unsigned long tableSize = 0;
   unsigned long bytes;
 
@@ -525,22 +526,26 @@ unsigned long loadExternalWaveform( char *fileName , real ***table )
   /* Preview file to get number of elements. */
   while( !feof( fp ) ) 
   {
-    if( fscanf( fp , "%lf %lf" , &tmp2 , &tmp2 ) == 2 )
+    numScanned = fscanf( fp , "%lf %lf" , &tmp2 , &tmp2 );
+    if( numScanned == 2 )
       tableSize++;
     else
-      if( feof( fp ) )
+      if( numScanned == EOF && feof( fp ) && !ferror( fp ) )
         break;
       else
         message( MSG_ERROR , 0 , "  *** Error reading from %s\n" , fileName );
   }
 
+  if( tableSize == 0 )
+    message( MSG_ERROR , 0 , "  *** Error: No data in external waveform file %s\n" , fileName );
+
   rewind( fp );
 
   *table = allocArray( &bytes , sizeof( real )  , 2 , tableSize , 3 );
 
   for( int i = 0 ; i < tableSize ; i++ )
   {
-    if( fscanf( fp , "%lf %lf" , &tmp1, &tmp2 ) != 2 )
+    if( fscanf( fp , "%lf %lf" , &tmp1, &tmp2 ) != 2 || ferror( fp ) )
       message( MSG_ERROR , 0 , "  *** Error reading from %s\n" , fileName );
     (*table)[i][0] = (real)tmp1;
     (*table)[i][1] = (real)tmp2;   
-- 
2.43.0


From 5b3973cfe2415f7286ca29647b4f27c726e34578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 06/26] fix: notice a read error in a Debye parameter file

A read that fails inside the last number leaves the digits before it to be
taken as the number.
---
 src/medium.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/medium.c b/src/medium.c
index 7e44411..c2e2f9b 100644
--- a/src/medium.c
+++ b/src/medium.c
@@ -370,6 +370,9 @@ void readDebyeParameters( char fileName[PATH_SIZE] , real *eps_inf , real *sigma
       (*poles)[poleIdx] = tmp3 + I * tmp4;
   }
 
+  if( ferror( filePointer ) )
+    message( MSG_ERROR , 0 , "  *** Error: Failed to read Debye parameter file %s\n" , fileName );
+
   fclose( filePointer );
   
   return;
-- 
2.43.0


From febe25f61aadb137de30210e47a7924439a7a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 07/26] fix: check allocations that were used without being
 checked

---
 src/alloc_array.c | 2 ++
 src/filter.c      | 4 ++++
 src/medium.c      | 4 ++++
 src/planewave.c   | 3 +++
 4 files changed, 13 insertions(+)

diff --git a/src/alloc_array.c b/src/alloc_array.c
index 127658a..7cc696e 100644
--- a/src/alloc_array.c
+++ b/src/alloc_array.c
@@ -62,6 +62,8 @@ void *allocArray( unsigned long *bytes , size_t size , int dimension , ... )
   char thisExtent[EXTENTSIZE] = "";
 
   extentString = (char *) malloc( sizeof( char ) * EXTENTSIZE * dimension + 3 );
+  if( !extentString )
+    message( MSG_ERROR , 0 , "allocArray: Failed to alloc %d -D array extent string!\n" , dimension );
   extentString[0] = '\0';
 
   lengthOfLayer = (unsigned long *) malloc( 2 * dimension * sizeof(unsigned long) );
diff --git a/src/filter.c b/src/filter.c
index b8d10c7..d5aba35 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -44,6 +44,8 @@ yfPoleResidue yfAllocPoleResidue( int numPoles , double asymp , double complex p
    pr.asymp = asymp;
    pr.residues = (double complex *) malloc( numPoles * sizeof( double complex ) );
    pr.poles = (double complex *) malloc( numPoles * sizeof( double complex ) );
+   if( numPoles > 0 && ( !pr.residues || !pr.poles ) )
+     message( MSG_ERROR , 0 , "*** Error: Failed to allocate pole-residue filter\n" );
  
    if( residues != NULL )
      for( int i = 0 ; i < numPoles ; i++ )
@@ -258,6 +260,8 @@ yfRecConvState yfAllocRecConvState( yfRecConv rc )
   yfRecConvState rc_s;
 
   rc_s.zeta = (double complex *) calloc( rc.numPoles , sizeof( double complex ) );
+  if( rc.numPoles > 0 && !rc_s.zeta )
+    message( MSG_ERROR , 0 , "*** Error: Failed to allocate recursive convolution filter state\n" );
   rc_s.old = 0.0;
  
   return rc_s;
diff --git a/src/medium.c b/src/medium.c
index c2e2f9b..de67d60 100644
--- a/src/medium.c
+++ b/src/medium.c
@@ -280,6 +280,8 @@ void addMedium( char *name , MediumType type , real eps_r , real sigma , real mu
       item->numPoles = numPoles;
       item->residues = malloc( numPoles * sizeof( double complex ) );
       item->poles = malloc( numPoles * sizeof( double complex ) );
+      if( numPoles > 0 && ( !item->residues || !item->poles ) )
+        message( MSG_ERROR , 0 , "*** Error: Failed to allocate poles of medium %s\n" , name );
       for( int poleIdx = 0 ; poleIdx < numPoles ; poleIdx++ )
       {
         item->residues[poleIdx] = (double complex)residues[poleIdx];
@@ -407,6 +409,8 @@ void initMedia( void )
     {
       item->dalpha = malloc( item->numPoles * sizeof( double complex ) );
       item->dbeta = malloc( item->numPoles * sizeof( double complex ) ); 
+      if( item->numPoles > 0 && ( !item->dalpha || !item->dbeta ) )
+        message( MSG_ERROR , 0 , "*** Error: Failed to allocate update coefficients of medium %s\n" , item->name );
     }
     calcCoeffFromParam( &(item->alpha) , &(item->beta) , &(item->gamma) , item->dalpha , item->dbeta ,
                         dt , item->eps_r , item->sigma , item->mu_r , 
diff --git a/src/planewave.c b/src/planewave.c
index 56e8f30..4fe47e8 100644
--- a/src/planewave.c
+++ b/src/planewave.c
@@ -1264,6 +1264,9 @@ void initAuxGrid( PlaneWaveItem *item )
   item->bdx  = (real *) malloc( sizeof( real ) * ( npml ) );
   item->ahx  = (real *) malloc( sizeof( real ) * ( npml ) );
   item->bhx  = (real *) malloc( sizeof( real ) * ( npml ) );
+  if( !item->Eyi || !item->Hzi || !item->Pyi || !item->PPyi || !item->Bzi || 
+      !item->adx || !item->bdx || !item->ahx || !item->bhx )
+    message( MSG_ERROR , 0 , "*** Error: Failed to allocate auxiliary grid of plane wave %s\n" , item->name );
 
   /* Clear the mesh and initialise to free space. */
   for ( i = 0 ; i <= item->nx ; i++ ) 
-- 
2.43.0


From d319c1b0f27c392fa8bc1e5cf86e02364e0be61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 08/26] fix: report a failed allocation in a hash table

The default of uthash is to exit without a word.
---
 src/boundary.h | 1 +
 src/medium.h   | 1 +
 src/message.h  | 3 +++
 src/waveform.c | 2 +-
 src/wire.h     | 1 +
 5 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/boundary.h b/src/boundary.h
index 6008753..812a833 100644
--- a/src/boundary.h
+++ b/src/boundary.h
@@ -27,6 +27,7 @@
 
 #include "fdtd_types.h"
 #include "medium.h"
+#include "message.h"
 #include "utlist.h"
 #include "uthash.h"
 
diff --git a/src/medium.h b/src/medium.h
index ff41640..773f433 100644
--- a/src/medium.h
+++ b/src/medium.h
@@ -28,6 +28,7 @@
 #include <complex.h>
 
 #include "fdtd_types.h"
+#include "message.h"
 #include "utlist.h"
 #include "uthash.h"
 
diff --git a/src/message.h b/src/message.h
index 916db69..aada67a 100644
--- a/src/message.h
+++ b/src/message.h
@@ -40,6 +40,9 @@ typedef enum msg_type {
 
 } MessageType;
 
+/* Report a failed allocation in a hash table. Must be seen before uthash.h. */
+#define uthash_fatal( msg ) message( MSG_ERROR , 0 , "*** Error: %s in hash table\n" , msg )
+
 void startMessaging( char *logFileName , MessageType minimumLevel , char *progName , int versionMajor , int versionMinor , int versionPatch );
 void message(  MessageType status , int errnum , const char *message , ... );
 void stopMessaging( void );
diff --git a/src/waveform.c b/src/waveform.c
index 192c2b0..ea29106 100644
--- a/src/waveform.c
+++ b/src/waveform.c
@@ -27,11 +27,11 @@
 #include <stdio.h>
 
 #include "waveform.h"
+#include "message.h"
 #include "utlist.h"
 #include "uthash.h"
 #include "alloc_array.h"
 #include "physical.h"
-#include "message.h"
 #include "simulation.h"
 #include "grid.h"
 
diff --git a/src/wire.h b/src/wire.h
index 51e91eb..6aec7e8 100644
--- a/src/wire.h
+++ b/src/wire.h
@@ -27,6 +27,7 @@
 
 #include "fdtd_types.h"
 #include "medium.h"
+#include "message.h"
 #include "utlist.h"
 #include "uthash.h"
 
-- 
2.43.0


From 7f41a8fbd1b85ee78eb00829311503e3edf36cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 09/26] fix: limit the output time-steps to those of the
 simulation

With an OT card reaching past the last time-step the header of impulse.dat
announced records that were never written.
---
 src/observer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/observer.c b/src/observer.c
index d402517..6301cdc 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -420,6 +420,16 @@ void initObservers( void )
     startTimeStep = 0UL;
     stopTimeStep = numTimeSteps - 1UL;
   }
+  else if( startTimeStep >= numTimeSteps )
+  {
+    message( MSG_ERROR , 0 , "*** Error: First output time-step (%lu) is after the last time-step (%lu)!\n" , startTimeStep , numTimeSteps - 1UL );
+  }
+  else if( stopTimeStep >= numTimeSteps )
+  {
+    /* The output files announce how many time-steps they will contain. */
+    message( MSG_LOG , 0 , "  Last output time-step (%lu) is after the last time-step (%lu)\n" , stopTimeStep , numTimeSteps - 1UL );
+    stopTimeStep = numTimeSteps - 1UL;
+  }
   
   startTime = startTimeStep * dt;
   stopTime = stopTimeStep * dt;
-- 
2.43.0


From 37763989f24d24687750daa670b8c12e13fa5a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 10/26] fix: allow a single output frequency

The frequency step was zero divided by zero, and every result was not a number.
---
 src/observer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observer.c b/src/observer.c
index 6301cdc..6c37214 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -450,7 +450,7 @@ void initObservers( void )
   }
   else
   {
-    stepFreq = ( stopFreq - startFreq ) / ( numFreq - 1 );
+    stepFreq = numFreq > 1 ? ( stopFreq - startFreq ) / ( numFreq - 1 ) : 0.0;
   }
 
   message( MSG_LOG , 0 , "  Observer freqs: fstart=%g MHz, fstop=%g MHz, fstep=%g MHz, fnumber=%lu\n" , 
-- 
2.43.0


From cd693aef7e931490d2d31fb4d0701c000486d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 11/26] fix: reject an observer step of zero

Stepping through the nodes by zero never ends, and writes until the disk is
full.
---
 src/observer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observer.c b/src/observer.c
index 6c37214..a07cb02 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -253,9 +253,9 @@ bool parseOP( char *line )
     numScanned = sscanf( line , "%d %d %d %d %d %d %31s %31s %d %d %d" , 
                          &mbbox[XLO] , &mbbox[XHI] , &mbbox[YLO] , &mbbox[YHI] , &mbbox[ZLO] , &mbbox[ZHI] , 
                          name , typeStr , &step[XDIR] , &step[YDIR] , &step[ZDIR] );
-    if( step[XDIR] < 0 ||  step[YDIR] < 0 ||  step[ZDIR] < 0 )
+    if( step[XDIR] < 1 ||  step[YDIR] < 1 ||  step[ZDIR] < 1 )
     {
-      message( MSG_LOG , 0 , "  Steps must be positive or zero:\n" );
+      message( MSG_LOG , 0 , "  Steps must be positive:\n" );
       return false;
     }
   }
-- 
2.43.0


From 34c2c4c62c2008076be3b0c4899d198f5d6dc5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 12/26] fix: diagnose -n without a value

The value was looked for past the end of the arguments.
---
 src/vulture.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vulture.c b/src/vulture.c
index c15e5ab..25ca21f 100644
--- a/src/vulture.c
+++ b/src/vulture.c
@@ -225,7 +225,7 @@ void parseOption( int argc , char *argv[] , char meshFileName[] )
     }
     else if( strncmp( argv[1] , "-n" , 2 ) == 0  || strncmp( argv[1] , "--num-proc" , 10 ) == 0 )
     {
-      if( argc > 0 )
+      if( argc > 2 )
       {
         options.numThread = strtod( argv[2] , &ptr );      
         if( options.numThread == 0 )
-- 
2.43.0


From 7fd728c2012dff5a2146be2ff1c60f17fac9e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 13/26] fix: print the name of an invalid waveform type

The type number was printed as a string.
---
 src/waveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waveform.c b/src/waveform.c
index ea29106..74dabcd 100644
--- a/src/waveform.c
+++ b/src/waveform.c
@@ -191,7 +191,7 @@ bool parseWF( char *line )
 
   if( !foundType )
   {
-    message( MSG_LOG , 0 , "  Invalid waveform: %s\n" , type );
+    message( MSG_LOG , 0 , "  Invalid waveform: %s\n" , typeStr );
     return false;
   }
 
-- 
2.43.0


From 526679aff79f1bc248e5296793278cbd913fc56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 14/26] fix: locate plane wave field points beyond the mesh
 limits

---
 src/grid.c | 50 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/grid.c b/src/grid.c
index 946973c..0239ceb 100644
--- a/src/grid.c
+++ b/src/grid.c
@@ -1393,6 +1393,20 @@ void getGridBoundingBox( int innerBox[6] , int outerBox[6] )
 
 }
 
+/* Get position of a mesh line, which can also be one of the grid lines beyond the mesh limits. */
+static real getExtendedLine( real *lines , int numberOfLines , int line )
+{
+
+  if( line < 0 )
+    return lines[0] + line * ( lines[1] - lines[0] );
+
+  if( line > numberOfLines - 1 )
+    return lines[numberOfLines-1] + ( line - numberOfLines + 1 ) * ( lines[numberOfLines-1] - lines[numberOfLines-2] );
+
+  return lines[line];
+
+}
+
 /* Get location of field point (in grid indices.) in physical units. */
 void getFieldPhysicalLocation( real r[3] , FieldComponent field , int ig , int jg , int kg )
 {
@@ -1406,34 +1420,34 @@ void getFieldPhysicalLocation( real r[3] , FieldComponent field , int ig , int j
   switch( field )
   {
   case EX:
-    r[XDIR] = xlines[im] + 0.5 * dex[ig];
-    r[YDIR] = ylines[jm];
-    r[ZDIR] = zlines[km];
+    r[XDIR] = getExtendedLine( xlines , numLines[XDIR] , im ) + 0.5 * dex[ig];
+    r[YDIR] = getExtendedLine( ylines , numLines[YDIR] , jm );
+    r[ZDIR] = getExtendedLine( zlines , numLines[ZDIR] , km );
     break;
   case EY:
-    r[XDIR] = xlines[im];
-    r[YDIR] = ylines[jm] + 0.5 * dey[jg];
-    r[ZDIR] = zlines[km];
+    r[XDIR] = getExtendedLine( xlines , numLines[XDIR] , im );
+    r[YDIR] = getExtendedLine( ylines , numLines[YDIR] , jm ) + 0.5 * dey[jg];
+    r[ZDIR] = getExtendedLine( zlines , numLines[ZDIR] , km );
     break;
   case EZ:
-    r[XDIR] = xlines[im];
-    r[YDIR] = ylines[jm];
-    r[ZDIR] = zlines[km] + 0.5 * dez[kg];
+    r[XDIR] = getExtendedLine( xlines , numLines[XDIR] , im );
+    r[YDIR] = getExtendedLine( ylines , numLines[YDIR] , jm );
+    r[ZDIR] = getExtendedLine( zlines , numLines[ZDIR] , km ) + 0.5 * dez[kg];
     break;
   case HX:
-    r[XDIR] = xlines[im];
-    r[YDIR] = ylines[jm] + 0.5 * dey[jg];
-    r[ZDIR] = zlines[km] + 0.5 * dez[kg];
+    r[XDIR] = getExtendedLine( xlines , numLines[XDIR] , im );
+    r[YDIR] = getExtendedLine( ylines , numLines[YDIR] , jm ) + 0.5 * dey[jg];
+    r[ZDIR] = getExtendedLine( zlines , numLines[ZDIR] , km ) + 0.5 * dez[kg];
     break;
   case HY:
-    r[XDIR] = xlines[im] + 0.5 * dex[ig];
-    r[YDIR] = ylines[jm];
-    r[ZDIR] = zlines[km] + 0.5 * dez[kg];
+    r[XDIR] = getExtendedLine( xlines , numLines[XDIR] , im ) + 0.5 * dex[ig];
+    r[YDIR] = getExtendedLine( ylines , numLines[YDIR] , jm );
+    r[ZDIR] = getExtendedLine( zlines , numLines[ZDIR] , km ) + 0.5 * dez[kg];
     break;
   case HZ:
-    r[XDIR] = xlines[im] + 0.5 * dex[ig];
-    r[YDIR] = ylines[jm] + 0.5 * dey[jg];
-    r[ZDIR] = zlines[km];
+    r[XDIR] = getExtendedLine( xlines , numLines[XDIR] , im ) + 0.5 * dex[ig];
+    r[YDIR] = getExtendedLine( ylines , numLines[YDIR] , jm ) + 0.5 * dey[jg];
+    r[ZDIR] = getExtendedLine( zlines , numLines[ZDIR] , km );
     break;
   default:
     assert( 0 );
-- 
2.43.0


From 9367eae383d8a9600bcb20b3bc2b32e284f15c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 15/26] fix: do not scan below the start of blank mesh lines

---
 src/mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh.c b/src/mesh.c
index ca7cacd..cf1ba8e 100644
--- a/src/mesh.c
+++ b/src/mesh.c
@@ -432,6 +432,14 @@ void strtrim( char *string )
    *  non-whitespace characters from each end.
    */
   while( isspace( *(++startPointer) ) );
+
+  /* There is nothing to keep if the string is all whitespace. */
+  if( *startPointer == '\0' )
+  {
+    *string = '\0';
+    return;
+  }
+
   while( isspace( *(--endPointer) ) && endPointer != startPointer );
 
   if( string + stringLength - 1 != endPointer )
-- 
2.43.0


From 1bd88aad0bd56851b29e4b3eb3ccec7ff8c73c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 16/26] fix: locate arrows of sources at the mesh edge in
 physical units

---
 src/grid.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/grid.c b/src/grid.c
index 0239ceb..77be437 100644
--- a/src/grid.c
+++ b/src/grid.c
@@ -1177,16 +1177,30 @@ void writeLines( char *fileName , int n , real *v )
 
 }
 
+/* Get position of a mesh line, which can also be one of the grid lines beyond the mesh limits. */
+static real getExtendedLine( real *lines , int numberOfLines , int line )
+{
+
+  if( line < 0 )
+    return lines[0] + line * ( lines[1] - lines[0] );
+
+  if( line > numberOfLines - 1 )
+    return lines[numberOfLines-1] + ( line - numberOfLines + 1 ) * ( lines[numberOfLines-1] - lines[numberOfLines-2] );
+
+  return lines[line];
+
+}
+
 /* Convert bounding box to physical units. */
 void bboxInPhysicalUnits( real physbbox[6] , int bbox[6] )
 {
 
-  physbbox[XLO] = xlines[bbox[XLO]];
-  physbbox[XHI] = xlines[bbox[XHI]];
-  physbbox[YLO] = ylines[bbox[YLO]];
-  physbbox[YHI] = ylines[bbox[YHI]];
-  physbbox[ZLO] = zlines[bbox[ZLO]];
-  physbbox[ZHI] = zlines[bbox[ZHI]];
+  physbbox[XLO] = getExtendedLine( xlines , numLines[XDIR] , bbox[XLO] );
+  physbbox[XHI] = getExtendedLine( xlines , numLines[XDIR] , bbox[XHI] );
+  physbbox[YLO] = getExtendedLine( ylines , numLines[YDIR] , bbox[YLO] );
+  physbbox[YHI] = getExtendedLine( ylines , numLines[YDIR] , bbox[YHI] );
+  physbbox[ZLO] = getExtendedLine( zlines , numLines[ZDIR] , bbox[ZLO] );
+  physbbox[ZHI] = getExtendedLine( zlines , numLines[ZDIR] , bbox[ZHI] );
 
   return;
 
@@ -1393,20 +1407,6 @@ void getGridBoundingBox( int innerBox[6] , int outerBox[6] )
 
 }
 
-/* Get position of a mesh line, which can also be one of the grid lines beyond the mesh limits. */
-static real getExtendedLine( real *lines , int numberOfLines , int line )
-{
-
-  if( line < 0 )
-    return lines[0] + line * ( lines[1] - lines[0] );
-
-  if( line > numberOfLines - 1 )
-    return lines[numberOfLines-1] + ( line - numberOfLines + 1 ) * ( lines[numberOfLines-1] - lines[numberOfLines-2] );
-
-  return lines[line];
-
-}
-
 /* Get location of field point (in grid indices.) in physical units. */
 void getFieldPhysicalLocation( real r[3] , FieldComponent field , int ig , int jg , int kg )
 {
-- 
2.43.0


From 7f2a3bafb361597854fbf8845d4380fff7d0c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 17/26] fix: reject negative numbers of time steps and
 frequencies

---
 src/observer.c   | 27 ++++++++++++++++++++-------
 src/simulation.c |  8 ++++----
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/observer.c b/src/observer.c
index a07cb02..4aec888 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -23,6 +23,7 @@
  */
 
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include <math.h>
 
@@ -332,10 +333,22 @@ bool parseFF( char *line )
 bool parseOT( char *line )
 {
 
-  if( sscanf( line , "%lu %lu" , &startTimeStep , &stopTimeStep ) != 2 )
+  long start = 0L;
+  long stop = 0L;
+
+  if( sscanf( line , "%ld %ld" , &start , &stop ) != 2 )
     return false;
 
-  if( stopTimeStep < startTimeStep )
+  if( start < 0L )
+  {
+    message( MSG_LOG , 0 , "  Start time-step must be >= 0!\n" );
+    return false; 
+  }
+
+  startTimeStep = (unsigned long) start;
+  stopTimeStep = (unsigned long) stop;
+
+  if( stop < start )
   {
     message( MSG_LOG , 0 , "  Stop time-step must be >= start time-step!\n" );
     return false; 
@@ -353,9 +366,9 @@ bool parseOF( char *line )
 
   double fstart = -1.0;
   double fstop = -1.0;
-  unsigned long num = 0;
+  long num = 0;
 
-  if( sscanf( line , "%lf %lf %lu" , &fstart , &fstop , &num ) != 3 )
+  if( sscanf( line , "%lf %lf %ld" , &fstart , &fstop , &num ) != 3 )
     return false;
 
   if( fstart < 0 )
@@ -378,14 +391,14 @@ bool parseOF( char *line )
     stopFreq = (real) fstop;
   }
 
-  if( num < 1UL )
+  if( num < 1L || num > INT_MAX )
   {
-    message( MSG_LOG , 0 , "  Number of frequencies must be >= 1!\n" );
+    message( MSG_LOG , 0 , "  Number of frequencies must be >= 1 and <= %d!\n" , INT_MAX );
     return false; 
   }
   else
   {
-    numFreq = num;
+    numFreq = (unsigned long) num;
   }
 
   isOF = true;
diff --git a/src/simulation.c b/src/simulation.c
index db2d8a6..f76e83e 100644
--- a/src/simulation.c
+++ b/src/simulation.c
@@ -87,19 +87,19 @@ bool parseCN( char *line )
 bool parseNT( char *line )
 {
 
-  unsigned long numSteps = 0UL;
+  long numSteps = 0L;
 
-  if( sscanf( line , "%lu" , &numSteps ) != 1 )
+  if( sscanf( line , "%ld" , &numSteps ) != 1 )
     return false;  
 
-  if( numSteps < 1UL )
+  if( numSteps < 1L )
   {
     message( MSG_LOG , 0 , "  Number of time steps must be >= 1!\n" );
     return false;
   }
   else
   {
-    setNumTimeSteps( numSteps );
+    setNumTimeSteps( (unsigned long) numSteps );
   }
 
   return true;
-- 
2.43.0


From 0eb553dfa912499b8d4e18a64f99388d2921464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 18/26] fix: refuse arrays whose size is not representable

---
 src/alloc_array.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/alloc_array.c b/src/alloc_array.c
index 7cc696e..e82a126 100644
--- a/src/alloc_array.c
+++ b/src/alloc_array.c
@@ -26,6 +26,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <string.h>
+#include <limits.h>
 
 #include "message.h"
 
@@ -93,6 +94,11 @@ void *allocArray( unsigned long *bytes , size_t size , int dimension , ... )
 
   va_end( marker );
 
+  /* The number of bytes must be representable. */
+  for( i = 1; i < dimension ; i++ )
+    if( extent[i] > 0 && lengthOfLayer[i-1] > ULONG_MAX / 4 / ( extent[i] * ( size + sizeof( void * ) ) ) )
+      message( MSG_ERROR , 0 , "  allocArray: Failed to allocate %s %lu-D array!\n" , extentString , dimension );
+
   blockSize = inNodes * sizeof( void * ) + lengthOfLayer[dimension-1] * size;
   currentPointer = retval = (void***)malloc( blockSize );
   if( retval == 0 )
-- 
2.43.0


From 51f69e79a80e875a916a722034229fd314f8bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 19/26] fix: clear the impedance surface flags of the ghost
 cells

---
 src/sibc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sibc.c b/src/sibc.c
index 7b9b752..8da99f1 100644
--- a/src/sibc.c
+++ b/src/sibc.c
@@ -230,9 +230,11 @@ void initSibcSurfaces( SurfaceIndex number , SurfaceItem *surfaceList )
   bool ****isSibcFace;
   message( MSG_DEBUG1 , 0 , "  Allocating SIBC utilisation array\n" );
   isSibcFace = allocArray( &bytes , sizeof( bool ) , 4 , numCells[XDIR] , numCells[YDIR] , numCells[ZDIR] , 3 );
-  setSibcFace( isSibcFace , gobox , XDIR , false );
-  setSibcFace( isSibcFace , gobox , YDIR , false );
-  setSibcFace( isSibcFace , gobox , ZDIR , false );
+  /* The ghost cells are included since they are neighbours of the faces at the edge of the grid. */
+  int allCells[6] = { 0 , numCells[XDIR] , 0 , numCells[YDIR] , 0 , numCells[ZDIR] };
+  setSibcFace( isSibcFace , allCells , XDIR , false );
+  setSibcFace( isSibcFace , allCells , YDIR , false );
+  setSibcFace( isSibcFace , allCells , ZDIR , false );
 
   /* Set up SIBC surfaces. */
   surface = 0;
-- 
2.43.0


From d8000dd45afdc289aec372d71c5009bc08f846d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 20/26] fix: refuse a mesh file name that is too long

A name of 1024 characters or more was cut to 1024 without a terminating
null: another file than the one named was opened and reported.
---
 src/gvulture.c | 6 ++++++
 src/vulture.c  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/gvulture.c b/src/gvulture.c
index 126d50c..d3819bb 100644
--- a/src/gvulture.c
+++ b/src/gvulture.c
@@ -172,6 +172,12 @@ void parseOption( int argc , char *argv[] , char meshFileName[] )
 
   if( argc != 2 )
     printUsage();
+  else if( strlen( argv[1] ) >= PATH_SIZE )
+  {
+    printf( "\n*** Error: mesh file name is too long\n" );
+    printUsage();
+    exit( 1 );
+  }
   else
     strncpy( meshFileName , argv[1] , PATH_SIZE );
 
diff --git a/src/vulture.c b/src/vulture.c
index 25ca21f..5601e94 100644
--- a/src/vulture.c
+++ b/src/vulture.c
@@ -272,6 +272,12 @@ void parseOption( int argc , char *argv[] , char meshFileName[] )
 
   if( argc != 2 )
     printUsage();
+  else if( strlen( argv[1] ) >= PATH_SIZE )
+  {
+    printf( "\n*** Error: mesh file name is too long\n" );
+    printUsage();
+    exit( 1 );
+  }
   else
     strncpy( meshFileName , argv[1] , PATH_SIZE );
 
-- 
2.43.0


From 275ce7b925b52f1f9447526b23f5200794bd6e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:54 +0000
Subject: [PATCH 21/26] fix: no name of an undefined medium type beyond the
 table of names

---
 src/surface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface.c b/src/surface.c
index 0d4facd..b10ae5b 100644
--- a/src/surface.c
+++ b/src/surface.c
@@ -440,7 +440,8 @@ void initExternalPecPmcSurfaces( void )
              (unsigned long)externalSurfaceList[boundary].boundaryNumber ,
              bbox[XLO] , bbox[XHI] , bbox[YLO] , bbox[YHI] , bbox[ZLO] , bbox[ZHI] ,           
              BOUNDARY_TYPE_STR[boundaryType] , 
-             (unsigned long)boundaryType , MEDIUM_TYPE_STR[mediumType] );
+             (unsigned long)boundaryType , 
+             mediumType < MT_UNDEFINED ? MEDIUM_TYPE_STR[mediumType] : "UNDEFINED" );
 
     switch( mediumType )
     {
-- 
2.43.0


From a356f4cbe08f81fde7ea0a78f3a450dd092d0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:53 +0000
Subject: [PATCH 22/26] fix: a debug message of the Gmsh writer names an
 undefined direction without reading past the names

---
 src/gmsh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmsh.c b/src/gmsh.c
index 3dbdbaa..9afe8a6 100644
--- a/src/gmsh.c
+++ b/src/gmsh.c
@@ -420,7 +420,7 @@ void gmshAddEntity( unsigned long entityNumber , BoundingBoxType typeToAdd , cha
   mboxDir = bboxDirection( mbbox );
 
   message( MSG_DEBUG3 , 0 , "    Mesh bbox: type=%s dir=%s\n" ,
-           BBOX_STR[mboxType] , AXIS[mboxDir] );
+           BBOX_STR[mboxType] , mboxDir == CA_UNDEFINED ? "UNDEFINED" : AXIS[mboxDir] );
 
   /* Add compatible mesh elements for each bounding box to mesh. */
   switch( mboxType )
-- 
2.43.0


From e8feedab86984a8647b0f8d343622e562f7f43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 23/26] fix: a box with upside-down limits in z is refused, as
 in x and y

---
 src/bounding_box.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounding_box.h b/src/bounding_box.h
index de73e49..24ee6a4 100644
--- a/src/bounding_box.h
+++ b/src/bounding_box.h
@@ -30,7 +30,7 @@
 /* True if XLO <= XHI etc. */
 inline bool bboxIsNormal( int bbox[6] )
 {
-  return ( bbox[XLO] <= bbox[XHI] && bbox[YLO] <= bbox[YHI] && bbox[ZLO] <= bbox[ZLO] );
+  return ( bbox[XLO] <= bbox[XHI] && bbox[YLO] <= bbox[YHI] && bbox[ZLO] <= bbox[ZHI] );
 }
 
 /* True if (normal) bbox1 is within (normal) bbox2. */
-- 
2.43.0


From 9f452ab1ac210b40490fd0e637fb5f5203b32d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:35 +0000
Subject: [PATCH 24/26] fix: a very large output step does not overflow the
 indices of the output nodes

---
 src/gmsh.c     |  7 ++++---
 src/gnuplot.c  | 13 +++++++------
 src/observer.c |  9 +++++----
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/gmsh.c b/src/gmsh.c
index 9afe8a6..a048725 100644
--- a/src/gmsh.c
+++ b/src/gmsh.c
@@ -408,9 +408,10 @@ void gmshAddEntity( unsigned long entityNumber , BoundingBoxType typeToAdd , cha
   BoundingBoxType mboxType;
   CoordAxis mboxDir;
   unsigned long nodes[MAX_ELEM_NODES];
-  int i;
-  int j;
-  int k;
+  /* Indices are long so that adding a large step cannot overflow them. */
+  long i;
+  long j;
+  long k;
 
   message( MSG_DEBUG3 , 0 , "  Adding entity: number=%lu type=%s name=%s mbbox=[%d,%d,%d,%d,%d,%d]\n" ,
            entityNumber , BBOX_STR[typeToAdd] , name , mbbox[XLO] , mbbox[XHI] , mbbox[YLO] , mbbox[YHI] , mbbox[ZLO] , mbbox[ZHI] );
diff --git a/src/gnuplot.c b/src/gnuplot.c
index c5108ca..ef601a6 100644
--- a/src/gnuplot.c
+++ b/src/gnuplot.c
@@ -190,13 +190,14 @@ void gnuplotBoundingBoxNodes( FILE *outputFile , int ibbox[6] , int step[3] )
 
   real ri , rj , rk;
 
-  for( int k = ibbox[ZLO] ; k <= ibbox[ZHI] ; k += step[ZDIR] )
-    for( int j = ibbox[YLO] ; j <= ibbox[YHI] ; j += step[YDIR] ) 
-      for( int i = ibbox[XLO] ; i <= ibbox[XHI] ; i += step[XDIR] )
+  /* Indices are long so that adding a large step cannot overflow them. */
+  for( long k = ibbox[ZLO] ; k <= ibbox[ZHI] ; k += step[ZDIR] )
+    for( long j = ibbox[YLO] ; j <= ibbox[YHI] ; j += step[YDIR] ) 
+      for( long i = ibbox[XLO] ; i <= ibbox[XHI] ; i += step[XDIR] )
         {
-           ri = indexInRealUnits( i , XDIR );
-           rj = indexInRealUnits( j , YDIR );
-           rk = indexInRealUnits( k , ZDIR );
+           ri = indexInRealUnits( (int) i , XDIR );
+           rj = indexInRealUnits( (int) j , YDIR );
+           rk = indexInRealUnits( (int) k , ZDIR );
            fprintf( outputFile , "%g %g %g\n\n" , ri , rj , rk );
         }
 
diff --git a/src/observer.c b/src/observer.c
index 4aec888..0b984a9 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -1195,8 +1195,9 @@ void updateExciteDat( real value )
 void updateImpulseDat( ObserverItem *item )
 {
 
+  /* Indices are long so that adding a large step cannot overflow them. */
+  long i, j, k;
   /* Types for impulse.dat - must match processing tools on given platform. */
-  int i, j, k;
   float outEx , outEy , outEz , outHx , outHy , outHz;
   int iout , jout , kout;
 
@@ -1210,9 +1211,9 @@ void updateImpulseDat( ObserverItem *item )
           outHx = UNSCALE_Hx( Hx[i][j][k] , i );
           outHy = UNSCALE_Hy( Hy[i][j][k] , j );
           outHz = UNSCALE_Hz( Hz[i][j][k] , k );
-          iout = i - gibox[XLO];
-          jout = j - gibox[YLO];
-          kout = k - gibox[ZLO];
+          iout = (int) i - gibox[XLO];
+          jout = (int) j - gibox[YLO];
+          kout = (int) k - gibox[ZLO];
           fwrite( &iout , sizeof( iout ) , (size_t) 1 , impulseDatFile );
           fwrite( &jout , sizeof( jout ) , (size_t) 1 , impulseDatFile );
           fwrite( &kout , sizeof( kout ) , (size_t) 1 , impulseDatFile );
-- 
2.43.0


From 25928c42519222d57de92ed77e99fd338aa7b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:35 +0000
Subject: [PATCH 25/26] fix: a plane wave whose angle is not a number is
 refused

---
 src/planewave.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/planewave.c b/src/planewave.c
index 4fe47e8..ed21a9a 100644
--- a/src/planewave.c
+++ b/src/planewave.c
@@ -223,18 +223,18 @@ bool parsePW( char *line )
     return false;
   }
 
-  /* Validate angles. */
-  if( theta < 0.0 || theta > 180.0 )
+  /* Validate angles, refusing those which are not numbers. */
+  if( !( theta >= 0.0 && theta <= 180.0 ) )
   {
     message( MSG_LOG , 0 , "\n  Incident angle theta must be in range [0,180] degrees.\n" );
     return false;
   }
-  if( phi < 0.0 || phi > 360.0 )
+  if( !( phi >= 0.0 && phi <= 360.0 ) )
   {
     message( MSG_LOG , 0 , "\n  Incident angle phi must be in range [0,360) degrees.\n" );
     return false;
   }
-  if( eta < 0 || eta >= 360.0 )
+  if( !( eta >= 0.0 && eta < 360.0 ) )
   {
     message( MSG_LOG , 0 , "\n  Polarisation angle eta must be in range [0,360) degrees.\n" );
     return false;
-- 
2.43.0


From 21902a88bd73b5cc53e8b1dd0cb59d277976c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 26/26] fix: refuse mesh lines that do not fit the buffer or
 hold zero bytes

---
 src/mesh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh.c b/src/mesh.c
index cf1ba8e..c9a1327 100644
--- a/src/mesh.c
+++ b/src/mesh.c
@@ -308,6 +308,10 @@ void readMesh( char fileName[] )
 
     lineNumber++; 
 
+    /* A line that does not fit in the buffer would be taken for several lines. */
+    if( !strchr( rawLine , '\n' ) && !feof( meshFilePointer ) )
+      message( MSG_ERROR , 0 , "*** Error: Line number %lu of mesh file %s is too long or is not text\n" , lineNumber , fileName );
+
     /* Make copy for parsing. Keep original for error reporting. */
     strncpy( line , rawLine , BUFFER_LENGTH );
 
-- 
2.43.0

