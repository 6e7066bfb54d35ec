From 72128ecdf98930d9bf252614ccc593e1ccc6be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 01/17] fix: MAX_DISCRIMINANT for 52bits is 2^12 - 1

---
 src/discriminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discriminant.rs b/src/discriminant.rs
index b0a42be..a9153dc 100644
--- a/src/discriminant.rs
+++ b/src/discriminant.rs
@@ -80,7 +80,7 @@ generate_discriminants! {
     [tagged_box_reserve_55bits, u16, 511,   55, 9 ],
     [tagged_box_reserve_54bits, u16, 1023,  54, 10],
     [tagged_box_reserve_53bits, u16, 2047,  53, 11],
-    [tagged_box_reserve_52bits, u16, 4068,  52, 12],
+    [tagged_box_reserve_52bits, u16, 4095,  52, 12],
     [tagged_box_reserve_51bits, u16, 8191,  51, 13],
     [tagged_box_reserve_50bits, u16, 16383, 50, 14],
     [tagged_box_reserve_49bits, u16, 32767, 49, 15],
-- 
2.43.0


From 19042a6d710d2daba38bab82653f0d2e54abf7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 02/17] fix: cast variant discriminants to Discriminant so
 tagged_box! compiles when it is u16

---
 src/tagged_box_macro/meta_macros.rs | 68 ++++++++++++++---------------
 src/tagged_box_macro/mod.rs         | 38 ++++++++--------
 2 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index 47596bb..43250ae 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -447,7 +447,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
             ]
             $( $rest )*
         )
@@ -456,7 +456,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
             ]
             $( $rest )*
         )
@@ -469,7 +469,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -483,7 +483,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -497,7 +497,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -511,7 +511,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -525,7 +525,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -539,7 +539,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -553,7 +553,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -567,7 +567,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -581,7 +581,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -595,7 +595,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -609,7 +609,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -623,7 +623,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -637,7 +637,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -651,7 +651,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -665,7 +665,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -679,7 +679,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -693,7 +693,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -707,7 +707,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -721,7 +721,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -735,7 +735,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -749,7 +749,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -763,7 +763,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -777,7 +777,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -791,7 +791,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -805,7 +805,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -819,7 +819,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -833,7 +833,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -847,7 +847,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -861,7 +861,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -875,7 +875,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -889,7 +889,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -903,7 +903,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 8e72f1e..1fe802c 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -42,7 +42,7 @@ macro_rules! __taggable_into_box {
             [
                 $( $finished )*
                 $enum::$variant(var) => {
-                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as $crate::Discriminant)
                 },
             ]
             $( $rest )*
@@ -62,7 +62,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -77,7 +77,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -88,7 +88,7 @@ macro_rules! __taggable_into_box {
         $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
             ]
             $( $rest )*
         )
@@ -184,7 +184,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($ty:ty), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Inline variables
                 // if $crate::__generate_const_sizes!($ty) <= $crate::discriminant::DISCRIMINANT_BITS as usize {
                 //     todo!("Store small variables directly in the pointer")
@@ -199,7 +199,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($($ty:ty),*), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 #[allow(dead_code)]
                 #[repr(C)]
                 struct $variant($( $ty ),*);
@@ -218,7 +218,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty),* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -232,7 +232,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty,)* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -247,7 +247,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+            discrim if discrim == $counter::$variant as $crate::Discriminant => $enum::$variant,
         ] $( $rest )*);
     };
 
@@ -280,7 +280,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     $enum::$variant($crate::TaggedBox::<$enum>::into_inner::<$ty>($tagged))
                 },
             ] $($rest)*
@@ -296,7 +296,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<($( $ty ),*)>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
@@ -312,7 +312,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -332,7 +332,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -353,7 +353,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+                discrim if discrim == $counter::$variant as $crate::Discriminant => $enum::$variant,
             ] $($rest)*
         )
     };
@@ -393,7 +393,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant($tagged.as_ptr::<$ty>().read()));
                     ($callback)(&variant);
                 }
@@ -411,7 +411,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant($( $ty ),*);
 
@@ -440,7 +440,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -463,7 +463,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -487,7 +487,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     let variant: $enum = $enum::$variant;
                     ($callback)(&variant);
                 }
-- 
2.43.0


From 6922d23eab336259007cec8c4f13ec1b18363a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 03/17] fix: read multi-field tuple variants in from_tagged_box
 with the repr(C) layout they were stored with

---
 src/tagged_box_macro/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 1fe802c..727ab6b 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -297,7 +297,11 @@ macro_rules! __from_tagged_box {
             [
                 $($tt)*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
-                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<($( $ty ),*)>($tagged), $( $ty ),*)
+                    #[allow(dead_code)]
+                    #[repr(C)]
+                    struct $variant($( $ty ),*);
+
+                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
         )
-- 
2.43.0


From 41ef7343353abe4357fc40312a5210166944ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 04/17] fix: don't drop zero sized values that were moved into
 a TaggedBox

---
 src/tagged_box.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 730a83e..b3a7d4c 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -81,7 +81,11 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub fn new<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
-            Self::dangling::<U>(discriminant)
+            let tagged = Self::dangling::<U>(discriminant);
+            // The value now belongs to the `TaggedBox`
+            mem::forget(val);
+
+            tagged
         } else {
             let layout = Layout::new::<U>();
 
@@ -174,7 +178,11 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub unsafe fn new_unchecked<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
-            Self::dangling::<U>(discriminant)
+            let tagged = Self::dangling::<U>(discriminant);
+            // The value now belongs to the `TaggedBox`
+            mem::forget(val);
+
+            tagged
         } else {
             let layout = Layout::new::<U>();
 
-- 
2.43.0


From c450fef2bb3cc66391cafd5f3c833301374f2fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 05/17] fix: check the range of TaggedPointer::new in every
 build profile, as documented

---
 src/tagged_pointer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index c4eb53b..bf3aca5 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -27,13 +27,13 @@ impl TaggedPointer {
     #[inline]
     #[allow(clippy::absurd_extreme_comparisons)]
     pub fn new(ptr: u64, discriminant: Discriminant) -> Self {
-        debug_assert!(
+        assert!(
             discriminant <= MAX_DISCRIMINANT,
             "Attempted to store a discriminant of {} while the max value is {}",
             discriminant,
             MAX_DISCRIMINANT,
         );
-        debug_assert!(
+        assert!(
             ptr <= MAX_POINTER_VALUE,
             "If you are receiving this error, then your hardware uses more than {} bits of a pointer to store addresses. \
             It is recommended that you use a different feature for the `tagged-box` crate using `features = [\"{}bits\"]` or above.
-- 
2.43.0


From d8e5fb9633f296070f3d29e8423c55fa25c7d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 06/17] fix: reject discriminants that don't fit instead of
 aliasing another variant

---
 src/tagged_box_macro/mod.rs |  6 ++++++
 src/tagged_pointer.rs       | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 727ab6b..67d308c 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -784,6 +784,12 @@ macro_rules! tagged_box {
             $( $variants )+
         }
 
+        // Every variant needs a discriminant of its own
+        const _: () = assert!(
+            $crate::__count_variants!($( $variants )+) - 1 <= $crate::discriminant::MAX_DISCRIMINANT as usize,
+            "The enum has more variants than the reserved pointer width has discriminants"
+        );
+
         impl $crate::TaggableInner for $enum {
             fn into_tagged_box(self) -> $crate::TaggedBox<Self> {
                 $crate::__counter_enum! {
diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index bf3aca5..a037b32 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -47,8 +47,21 @@ impl TaggedPointer {
         Self { tagged_ptr }
     }
 
+    /// Creates a dangling, well-aligned tagged pointer that only carries a discriminant
+    ///
+    /// # Panics
+    ///
+    /// Panics if `discriminant` is greater than [`MAX_DISCRIMINANT`]
+    ///
+    /// [`MAX_DISCRIMINANT`]: crate::discriminant::MAX_DISCRIMINANT
     #[inline]
+    #[allow(clippy::absurd_extreme_comparisons)]
     pub const fn dangling<T: Sized>(discriminant: Discriminant) -> Self {
+        assert!(
+            discriminant <= MAX_DISCRIMINANT,
+            "Attempted to store a discriminant that is greater than the max value"
+        );
+
         Self {
             tagged_ptr: Self::store_discriminant(core::mem::align_of::<T>() as u64, discriminant),
         }
-- 
2.43.0


From 91154768caa9ad2a54bbc7e22a95f9d27b59d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 07/17] fix: rerun the build script when
 TAGGED_BOX_RESERVED_WIDTH changes

---
 build.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build.rs b/build.rs
index e09a66c..e00200d 100644
--- a/build.rs
+++ b/build.rs
@@ -1,4 +1,6 @@
 fn main() {
+    println!("cargo:rerun-if-env-changed=TAGGED_BOX_RESERVED_WIDTH");
+
     if let Ok(var) = dbg!(std::env::var("TAGGED_BOX_RESERVED_WIDTH")) {
         match &*var {
             "63bits" => println!("cargo:rustc-cfg=tagged_box_reserve_63bits"),
-- 
2.43.0


From 796a35631e8949b2c1e2757189a358e729754d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 08/17] fix: pass the formatter's options on to the inner value
 in Debug and Display

---
 src/tagged_box.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index b3a7d4c..45abb1a 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -496,7 +496,7 @@ where
         let mut result = Ok(());
         unsafe {
             T::ref_from_tagged_box(self, |this| {
-                result = write!(f, "{:?}", this);
+                result = fmt::Debug::fmt(this, f);
             });
         }
 
@@ -512,7 +512,7 @@ where
         let mut result = Ok(());
         unsafe {
             T::ref_from_tagged_box(self, |this| {
-                result = write!(f, "{}", this);
+                result = fmt::Display::fmt(this, f);
             });
         }
 
-- 
2.43.0


From ee1ad945ac0fc7570b208a7a53a27870787a5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 09/17] fix: don't run the enum's Drop when a unit variant is
 only borrowed

---
 src/tagged_box_macro/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 67d308c..0043881 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -492,8 +492,8 @@ macro_rules! __ref_from_tagged {
             [
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
-                    let variant: $enum = $enum::$variant;
-                    ($callback)(&variant);
+                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant);
+                    ($callback)(&*variant);
                 }
             ]
             $( $rest )*
-- 
2.43.0


From 67728f7dd3bd4a0fccd66092a211384ebbaeba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 10/17] fix: give the payload structs a name that can't clash
 with the types of their fields

The structs that multi-field and struct variants are stored as were named
after the variant, shadowing a field type of the same name (or the enum
itself), so that `Foo(Foo, u8)` didn't compile.
---
 src/tagged_box_macro/meta_macros.rs | 128 ++++++++++++++--------------
 src/tagged_box_macro/mod.rs         |  48 +++++------
 2 files changed, 88 insertions(+), 88 deletions(-)

diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index 43250ae..2ddf85b 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -467,9 +467,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -481,9 +481,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -495,9 +495,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -509,9 +509,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -523,9 +523,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -537,9 +537,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -551,9 +551,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -565,9 +565,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -579,9 +579,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -593,9 +593,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -607,9 +607,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -621,9 +621,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -635,9 +635,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -649,9 +649,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -663,9 +663,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -677,9 +677,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -691,9 +691,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -705,9 +705,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -719,9 +719,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -733,9 +733,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -747,9 +747,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -761,9 +761,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -775,9 +775,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -789,9 +789,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -803,9 +803,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -817,9 +817,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -831,9 +831,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -845,9 +845,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -859,9 +859,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -873,9 +873,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -887,9 +887,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -901,9 +901,9 @@ macro_rules! __expand_tuple_arm {
             $( $finished )*
             $enum::$variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff) => {
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new::<__TaggedBoxVariant>(__TaggedBoxVariant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 0043881..77f5b7f 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -59,10 +59,10 @@ macro_rules! __taggable_into_box {
                 $( $tt )*
                 $enum::$variant { $( $member ),* } => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new::<__TaggedBoxVariant>(__TaggedBoxVariant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -74,10 +74,10 @@ macro_rules! __taggable_into_box {
                 $( $tt )*
                 $enum::$variant { $( $member ),* } => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new::<__TaggedBoxVariant>(__TaggedBoxVariant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -202,7 +202,7 @@ macro_rules! __boxed_into_inner {
             discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 #[allow(dead_code)]
                 #[repr(C)]
-                struct $variant($( $ty ),*);
+                struct __TaggedBoxVariant($( $ty ),*);
 
                 // TODO: Inline variables
                 // if $crate::__generate_const_sizes!($( $ty ),*) <= $crate::discriminant::DISCRIMINANT_BITS as usize {
@@ -210,7 +210,7 @@ macro_rules! __boxed_into_inner {
                 // } else {
                 //     $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $($ty),*)
                 // }
-                $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $($ty),*)
+                $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged), $($ty),*)
             },
         ] $( $rest )*);
     };
@@ -221,10 +221,10 @@ macro_rules! __boxed_into_inner {
             discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
-                struct $variant {
+                struct __TaggedBoxVariant {
                     $( $ident: $ty ),*
                 }
-                let $variant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged);
+                let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                 $enum::$variant { $( $ident ),* }
             },
         ] $( $rest )*);
@@ -235,10 +235,10 @@ macro_rules! __boxed_into_inner {
             discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
-                struct $variant {
+                struct __TaggedBoxVariant {
                     $( $ident: $ty ),*
                 }
-                let $variant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged);
+                let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                 $enum::$variant { $( $ident ),* }
             },
         ] $( $rest )*);
@@ -299,9 +299,9 @@ macro_rules! __from_tagged_box {
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[allow(dead_code)]
                     #[repr(C)]
-                    struct $variant($( $ty ),*);
+                    struct __TaggedBoxVariant($( $ty ),*);
 
-                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $( $ty ),*)
+                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
         )
@@ -318,10 +318,10 @@ macro_rules! __from_tagged_box {
                 $($tt)*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $ident: $ty ),*
                     }
-                    let $variant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged);
+                    let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                     $enum::$variant { $( $ident ),* }
                 },
             ] $($rest)*
@@ -338,10 +338,10 @@ macro_rules! __from_tagged_box {
                 $($tt)*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $ident: $ty ),*
                     }
-                    let $variant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged);
+                    let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                     $enum::$variant { $( $ident ),* }
                 },
             ] $($rest)*
@@ -417,12 +417,12 @@ macro_rules! __ref_from_tagged {
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
-                    struct $variant($( $ty ),*);
+                    struct __TaggedBoxVariant($( $ty ),*);
 
                     #[allow(unused_variables)]
-                    let tuple: $variant = $crate::__expand_tuple!(
-                        $variant,
-                        $tagged.as_ptr::<$variant>().read(),
+                    let tuple: __TaggedBoxVariant = $crate::__expand_tuple!(
+                        __TaggedBoxVariant,
+                        $tagged.as_ptr::<__TaggedBoxVariant>().read(),
                         $( $ty ),*
                     );
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::<$enum>::new($crate::__expand_tuple!($enum::$variant, tuple, $($ty),*));
@@ -446,10 +446,10 @@ macro_rules! __ref_from_tagged {
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $ident: $ty ),*
                     }
-                    let $variant { $( $ident ),* } = $tagged.as_ptr::<$variant>().read();
+                    let __TaggedBoxVariant { $( $ident ),* } = $tagged.as_ptr::<__TaggedBoxVariant>().read();
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
                     ($callback)(&*variant);
                 }
@@ -469,10 +469,10 @@ macro_rules! __ref_from_tagged {
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
-                    struct $variant {
+                    struct __TaggedBoxVariant {
                         $( $ident: $ty ),*
                     }
-                    let $variant { $( $ident ),* } = $tagged.as_ptr::<$variant>().read();
+                    let __TaggedBoxVariant { $( $ident ),* } = $tagged.as_ptr::<__TaggedBoxVariant>().read();
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
                     ($callback)(&*variant);
                 }
-- 
2.43.0


From c9accd3477680c994b7295e39f5e5d40b40893ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 11/17] fix: payload types and enums may be named F

---
 src/tagged_box_macro/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 77f5b7f..ee5d366 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -819,9 +819,9 @@ macro_rules! tagged_box {
                 }
             }
 
-            unsafe fn ref_from_tagged_box<F>(tagged: &$crate::TaggedBox<$enum>, callback: F)
+            unsafe fn ref_from_tagged_box<__TaggedBoxCallback>(tagged: &$crate::TaggedBox<$enum>, callback: __TaggedBoxCallback)
             where
-                F: FnOnce(&$enum),
+                __TaggedBoxCallback: FnOnce(&$enum),
             {
                 $crate::__counter_enum! {
                     $( $variants )+
-- 
2.43.0


From 0dd71cb583e6d6bf8dec2dacfb52d73fbc5854a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 12/17] fix: the expansion names core items by absolute path

---
 src/tagged_box_macro/mod.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index ee5d366..9faba34 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -105,7 +105,7 @@ macro_rules! __taggable_into_box {
 #[macro_export]
 macro_rules! __derive_from {
     (@inner $struct:ident, $enum:ident, $variant:ident($ty:ty), $($rest:tt)*) => {
-        impl From<$ty> for $struct {
+        impl ::core::convert::From<$ty> for $struct {
             #[inline]
             fn from(val: $ty) -> Self {
                 #[allow(unused_imports)]
@@ -121,7 +121,7 @@ macro_rules! __derive_from {
     };
 
     (@inner $struct:ident, $enum:ident, $variant:ident($($ty:ty),*), $($rest:tt)*) => {
-        impl From<($( $ty, )*)> for $struct {
+        impl ::core::convert::From<($( $ty, )*)> for $struct {
             #[inline]
             fn from(tuple: ($( $ty, )*)) -> Self {
                 #![allow(unused_imports, unused_variables)]
@@ -166,7 +166,7 @@ macro_rules! __generate_const_sizes {
         $crate::__generate_const_sizes!(@inner
             [
             $( $finished )* + {
-                const __NUMBER_VAR_BITS: usize = core::mem::size_of::<$ty>() * 8;
+                const __NUMBER_VAR_BITS: usize = ::core::mem::size_of::<$ty>() * 8;
                 __NUMBER_VAR_BITS
             }]
             $( $rest, )*
@@ -398,7 +398,7 @@ macro_rules! __ref_from_tagged {
             [
                 $($tt)*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
-                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant($tagged.as_ptr::<$ty>().read()));
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::new($enum::$variant($tagged.as_ptr::<$ty>().read()));
                     ($callback)(&variant);
                 }
             ] $($rest)*
@@ -425,7 +425,7 @@ macro_rules! __ref_from_tagged {
                         $tagged.as_ptr::<__TaggedBoxVariant>().read(),
                         $( $ty ),*
                     );
-                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::<$enum>::new($crate::__expand_tuple!($enum::$variant, tuple, $($ty),*));
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::<$enum>::new($crate::__expand_tuple!($enum::$variant, tuple, $($ty),*));
 
                     ($callback)(&*variant);
                 }
@@ -450,7 +450,7 @@ macro_rules! __ref_from_tagged {
                         $( $ident: $ty ),*
                     }
                     let __TaggedBoxVariant { $( $ident ),* } = $tagged.as_ptr::<__TaggedBoxVariant>().read();
-                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
                     ($callback)(&*variant);
                 }
             ]
@@ -473,7 +473,7 @@ macro_rules! __ref_from_tagged {
                         $( $ident: $ty ),*
                     }
                     let __TaggedBoxVariant { $( $ident ),* } = $tagged.as_ptr::<__TaggedBoxVariant>().read();
-                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::new($enum::$variant { $( $ident ),* });
                     ($callback)(&*variant);
                 }
             ]
@@ -492,7 +492,7 @@ macro_rules! __ref_from_tagged {
             [
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
-                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant);
+                    let variant: ::core::mem::ManuallyDrop<$enum> = ::core::mem::ManuallyDrop::new($enum::$variant);
                     ($callback)(&*variant);
                 }
             ]
@@ -763,7 +763,7 @@ macro_rules! tagged_box {
             }
         }
 
-        impl From<$enum> for $struct {
+        impl ::core::convert::From<$enum> for $struct {
             #[inline]
             fn from(variant: $enum) -> Self {
                 use $crate::TaggableInner;
@@ -821,7 +821,7 @@ macro_rules! tagged_box {
 
             unsafe fn ref_from_tagged_box<__TaggedBoxCallback>(tagged: &$crate::TaggedBox<$enum>, callback: __TaggedBoxCallback)
             where
-                __TaggedBoxCallback: FnOnce(&$enum),
+                __TaggedBoxCallback: ::core::ops::FnOnce(&$enum),
             {
                 $crate::__counter_enum! {
                     $( $variants )+
-- 
2.43.0


From 1584063deeffb97d139f246fcbe482fbb8d36058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 13/17] fix: an enum named TaggableInner, or another trait with
 into_tagged_box in scope, breaks the generated From impls

---
 src/tagged_box_macro/mod.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 9faba34..e962790 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -108,11 +108,8 @@ macro_rules! __derive_from {
         impl ::core::convert::From<$ty> for $struct {
             #[inline]
             fn from(val: $ty) -> Self {
-                #[allow(unused_imports)]
-                use $crate::TaggableInner;
-
                 Self {
-                    value: $enum::$variant(val).into_tagged_box(),
+                    value: $crate::TaggableInner::into_tagged_box($enum::$variant(val)),
                 }
             }
         }
@@ -124,12 +121,11 @@ macro_rules! __derive_from {
         impl ::core::convert::From<($( $ty, )*)> for $struct {
             #[inline]
             fn from(tuple: ($( $ty, )*)) -> Self {
-                #![allow(unused_imports, unused_variables)]
-                use $crate::TaggableInner;
+                #![allow(unused_variables)]
 
                 let variant: $enum = $crate::__expand_tuple!($enum::$variant, tuple, $($ty),*);
                 Self {
-                    value: variant.into_tagged_box(),
+                    value: $crate::TaggableInner::into_tagged_box(variant),
                 }
             }
         }
@@ -766,10 +762,8 @@ macro_rules! tagged_box {
         impl ::core::convert::From<$enum> for $struct {
             #[inline]
             fn from(variant: $enum) -> Self {
-                use $crate::TaggableInner;
-
                 Self {
-                    value: variant.into_tagged_box(),
+                    value: $crate::TaggableInner::into_tagged_box(variant),
                 }
             }
         }
-- 
2.43.0


From 34f4b66ac3408871dcd5fcba211655db5284cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:03 +0000
Subject: [PATCH 14/17] fix: a method discriminant or len of another trait in
 scope breaks the expansion of tagged_box!

---
 src/tagged_box_macro/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index e962790..b86ea0a 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -249,7 +249,7 @@ macro_rules! __boxed_into_inner {
 
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*]) => {
         #[allow(unused_parens)]
-        match $tagged.discriminant() {
+        match $crate::TaggedBox::<$enum>::discriminant(&$tagged) {
             $( $tt )*
             _ => panic!("Attempted to create an enum variant from a discriminant that doesn't exist!"),
         }
@@ -360,7 +360,7 @@ macro_rules! __from_tagged_box {
 
     (@inner $tagged:expr, $enum:ident, $counter:ident, $total_variants:expr, [$($tt:tt)*]) => {
         #[allow(unused_parens)]
-        match $tagged.discriminant() {
+        match $crate::TaggedBox::<$enum>::discriminant(&$tagged) {
             $( $tt )*
 
             discriminant => {
@@ -572,7 +572,10 @@ macro_rules! __count_variants {
     };
 
     (@inner [$($variant:ident,)*]) => {
-        [$( stringify!($variant) ),*].len()
+        {
+            let names: &[_] = &[$( stringify!($variant) ),*];
+            names.len()
+        }
     };
 
     ($($rest:tt)*) => {
-- 
2.43.0


From 840efe3190488a63bb85384f257015f60a725df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 15/17] fix: macros of the user's own named panic, assert or
 stringify break the expansion of tagged_box!

---
 src/tagged_box_macro/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index b86ea0a..5c34f03 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -251,7 +251,7 @@ macro_rules! __boxed_into_inner {
         #[allow(unused_parens)]
         match $crate::TaggedBox::<$enum>::discriminant(&$tagged) {
             $( $tt )*
-            _ => panic!("Attempted to create an enum variant from a discriminant that doesn't exist!"),
+            _ => ::core::panic!("Attempted to create an enum variant from a discriminant that doesn't exist!"),
         }
     };
 
@@ -365,9 +365,9 @@ macro_rules! __from_tagged_box {
 
             discriminant => {
                 #[allow(non_upper_case_globals)]
-                panic!(
+                ::core::panic!(
                     "The number of variants in `{}` is {}, but a variant by the discriminant of {} was attempted to be created",
-                    stringify!($enum),
+                    ::core::stringify!($enum),
                     $total_variants,
                     discriminant
                 );
@@ -503,9 +503,9 @@ macro_rules! __ref_from_tagged {
 
             discriminant => {
                 #[allow(non_upper_case_globals)]
-                panic!(
+                ::core::panic!(
                     "The number of variants in `{}` is {}, but a variant by the discriminant of {} was attempted to be referenced",
-                    stringify!($enum),
+                    ::core::stringify!($enum),
                     $total_variants,
                     discriminant
                 );
@@ -573,7 +573,7 @@ macro_rules! __count_variants {
 
     (@inner [$($variant:ident,)*]) => {
         {
-            let names: &[_] = &[$( stringify!($variant) ),*];
+            let names: &[_] = &[$( ::core::stringify!($variant) ),*];
             names.len()
         }
     };
@@ -782,10 +782,9 @@ macro_rules! tagged_box {
         }
 
         // Every variant needs a discriminant of its own
-        const _: () = assert!(
-            $crate::__count_variants!($( $variants )+) - 1 <= $crate::discriminant::MAX_DISCRIMINANT as usize,
-            "The enum has more variants than the reserved pointer width has discriminants"
-        );
+        const _: () = if $crate::__count_variants!($( $variants )+) - 1 > $crate::discriminant::MAX_DISCRIMINANT as usize {
+            ::core::panic!("The enum has more variants than the reserved pointer width has discriminants");
+        };
 
         impl $crate::TaggableInner for $enum {
             fn into_tagged_box(self) -> $crate::TaggedBox<Self> {
-- 
2.43.0


From ae26b9cef8ab53a6864c4c2a890cea3dc20f1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 16/17] fix: quote an invalid TAGGED_BOX_RESERVED_WIDTH in the
 warning: one with a line break was read as further instructions to cargo

---
 build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.rs b/build.rs
index e00200d..37870e1 100644
--- a/build.rs
+++ b/build.rs
@@ -20,7 +20,7 @@ fn main() {
             "49bits" => println!("cargo:rustc-cfg=tagged_box_reserve_49bits"),
             "48bits" => println!("cargo:rustc-cfg=tagged_box_reserve_48bits"),
             reserved => {
-                println!("cargo:warning={} is an invalid reserved pointer width for `TAGGED_BOX_RESERVED_WIDTH`", reserved);
+                println!("cargo:warning={:?} is an invalid reserved pointer width for `TAGGED_BOX_RESERVED_WIDTH`", reserved);
                 println!("cargo:rustc-cfg=tagged_box_reserve_60bits")
             }
         }
-- 
2.43.0


From b54d05c11b6fc225e18016d71715218dc32a4723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 17/17] fix: the expansion of tagged_box! draws a warning (soon
 an error): a macro used as an expression expands with a trailing semicolon

---
 src/tagged_box_macro/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 5c34f03..6d33638 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -189,7 +189,7 @@ macro_rules! __boxed_into_inner {
                 // }
                 $enum::$variant($crate::TaggedBox::<$enum>::into_inner::<$ty>($tagged))
             },
-        ] $( $rest )*);
+        ] $( $rest )*)
     };
 
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($($ty:ty),*), $($rest:tt)*) => {
@@ -208,7 +208,7 @@ macro_rules! __boxed_into_inner {
                 // }
                 $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged), $($ty),*)
             },
-        ] $( $rest )*);
+        ] $( $rest )*)
     };
 
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty),* }, $($rest:tt)*) => {
@@ -223,7 +223,7 @@ macro_rules! __boxed_into_inner {
                 let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                 $enum::$variant { $( $ident ),* }
             },
-        ] $( $rest )*);
+        ] $( $rest )*)
     };
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty,)* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
@@ -237,14 +237,14 @@ macro_rules! __boxed_into_inner {
                 let __TaggedBoxVariant { $( $ident ),* } = $crate::TaggedBox::<$enum>::into_inner::<__TaggedBoxVariant>($tagged);
                 $enum::$variant { $( $ident ),* }
             },
-        ] $( $rest )*);
+        ] $( $rest )*)
     };
 
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
             discrim if discrim == $counter::$variant as $crate::Discriminant => $enum::$variant,
-        ] $( $rest )*);
+        ] $( $rest )*)
     };
 
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*]) => {
-- 
2.43.0

