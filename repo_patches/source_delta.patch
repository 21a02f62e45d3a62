From 65c54a26c5b0105c8dfac84aef4656fa0ad62741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 01/21] fix: measure intervals in the direction of the domain
 order (std::greater)

cardinality, size, length and distance subtracted bounds as if the order
were ascending and gave negative or wrapped results for std::greater.
---
 include/boost/icl/concept/interval.hpp | 36 ++++++++++++++++++--------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index fab7dd9..ab85d80 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -63,6 +63,20 @@ domain_equal(const typename interval_traits<Type>::domain_type& left,
     return !(domain_compare()(left, right)) && !(domain_compare()(right, left));
 }
 
+//- domain_span ----------------------------------------------------------------
+// The difference between low and up in the direction of the domain's order.
+template<class ResultT, class Type>
+inline ResultT
+domain_span(const typename interval_traits<Type>::domain_type& low,
+            const typename interval_traits<Type>::domain_type& up)
+{
+    typedef typename interval_traits<Type>::domain_type    domain_type;
+    typedef typename interval_traits<Type>::domain_compare domain_compare;
+    return is_increasing<domain_type,domain_compare>::value ?
+             static_cast<ResultT>(up - low)
+           : static_cast<ResultT>(low - up);
+}
+
 template<class Type>
 inline typename enable_if< is_interval<Type>
                          , typename interval_traits<Type>::domain_type>::type
@@ -1015,7 +1029,7 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : domain_span<SizeT,Type>(first(object), last_next(object));
 }
 
 template<class Type>
@@ -1037,7 +1051,7 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : domain_span<SizeT,Type>(first(object), last_next(object));
 }
 
 template<class Type>
@@ -1047,7 +1061,7 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : domain_span<SizeT,Type>(first(object), last_next(object));
 }
 
 
@@ -1069,7 +1083,7 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : domain_span<DiffT,Type>(lower(object), upper(object));
 }
 
 template<class Type>
@@ -1079,7 +1093,7 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : domain_span<DiffT,Type>(first(object), last_next(object));
 }
 
 template<class Type>
@@ -1089,7 +1103,7 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : domain_span<DiffT,Type>(lower(object), upper(object));
 }
 
 template<class Type>
@@ -1099,7 +1113,7 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : domain_span<DiffT,Type>(first(object), last_next(object));
 }
 
 //- iterative_size -------------------------------------------------------------
@@ -1418,9 +1432,9 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<difference_type>::value();
     else if(domain_less<Type>(last(x1), first(x2)))
-        return static_cast<difference_type>(icl::pred(first(x2) - last(x1)));
+        return icl::pred(domain_span<difference_type,Type>(last(x1), first(x2)));
     else if(domain_less<Type>(last(x2), first(x1)))
-        return static_cast<difference_type>(icl::pred(first(x1) - last(x2)));
+        return icl::pred(domain_span<difference_type,Type>(last(x2), first(x1)));
     else
         return icl::identity_element<difference_type>::value();
 }
@@ -1439,9 +1453,9 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<DiffT>::value();
     else if(domain_less<Type>(upper(x1), lower(x2)))
-        return lower(x2) - upper(x1);
+        return domain_span<DiffT,Type>(upper(x1), lower(x2));
     else if(domain_less<Type>(upper(x2), lower(x1)))
-        return lower(x1) - upper(x2);
+        return domain_span<DiffT,Type>(upper(x2), lower(x1));
     else
         return icl::identity_element<DiffT>::value();
 }
-- 
2.43.0


From d10e02e62aaf81b0c28add24d83ad3ad61f99c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 02/21] fix: closed and open intervals over a decreasing domain
 order

closed_interval's default value was not empty and open_interval's
singleton constructor was empty for std::greater.
---
 include/boost/icl/closed_interval.hpp | 5 +++--
 include/boost/icl/open_interval.hpp   | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/closed_interval.hpp b/include/boost/icl/closed_interval.hpp
index d7a3e6f..6cc6700 100644
--- a/include/boost/icl/closed_interval.hpp
+++ b/include/boost/icl/closed_interval.hpp
@@ -33,9 +33,10 @@ public:
     //==========================================================================
     //= Construct, copy, destruct
     //==========================================================================
-    /** Default constructor; yields an empty interval <tt>[0,0)</tt>. */
+    /** Default constructor; yields an empty interval <tt>[1,0]</tt> (<tt>[0,1]</tt> for a decreasing order). */
     closed_interval()
-        : _lwb(unit_element<DomainT>::value()), _upb(identity_element<DomainT>::value())
+        : _lwb(is_increasing<DomainT,domain_compare>::value ? unit_element<DomainT>::value() : identity_element<DomainT>::value())
+        , _upb(is_increasing<DomainT,domain_compare>::value ? identity_element<DomainT>::value() : unit_element<DomainT>::value())
     {
         BOOST_CONCEPT_ASSERT((DefaultConstructibleConcept<DomainT>));
         BOOST_CONCEPT_ASSERT((LessThanComparableConcept<DomainT>));
diff --git a/include/boost/icl/open_interval.hpp b/include/boost/icl/open_interval.hpp
index b94f231..68f53e2 100644
--- a/include/boost/icl/open_interval.hpp
+++ b/include/boost/icl/open_interval.hpp
@@ -45,7 +45,8 @@ public:
 
     /** Constructor for an open singleton interval <tt>(val-1,val+1)</tt> */
     explicit open_interval(const DomainT& val)
-        : _lwb(pred(val)), _upb(succ(val))
+        : _lwb(icl::predecessor<DomainT,domain_compare>::apply(val))
+        , _upb(icl::successor<DomainT,domain_compare>::apply(val))
     {
         BOOST_CONCEPT_ASSERT((DefaultConstructibleConcept<DomainT>));
         BOOST_CONCEPT_ASSERT((LessThanComparableConcept<DomainT>));
-- 
2.43.0


From 44c1248eb5fb7efaf546c8ba17e63a12cb9eb870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:16 +0000
Subject: [PATCH 03/21] fix: flipping an interval set with an empty interval is
 a no-op

flip called equal_range with an empty key, for which the interval order
is undefined (assertion failure).
---
 include/boost/icl/concept/interval_set.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/concept/interval_set.hpp b/include/boost/icl/concept/interval_set.hpp
index 63aad41..8e334c5 100644
--- a/include/boost/icl/concept/interval_set.hpp
+++ b/include/boost/icl/concept/interval_set.hpp
@@ -232,6 +232,9 @@ flip(Type& object, const typename Type::segment_type& segment)
     // That which is not shall be added
     // So x has to be 'complementary added' or flipped
     interval_type span = segment;
+    if(icl::is_empty(span))
+        return object;
+
     std::pair<const_iterator, const_iterator> exterior 
         = object.equal_range(span);
 
-- 
2.43.0


From fbc5d6f943714ef02d7ce301931918a4c72a4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:19 +0000
Subject: [PATCH 04/21] fix: flipping a partial interval map with an empty
 segment is a no-op

flip called equal_range with an empty key (assertion failure).
---
 include/boost/icl/interval_base_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index f464a6a..ba2fb10 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -755,6 +755,9 @@ private:
             // That which is not shall be added
             // So interval_value_pair has to be 'complementary added' or flipped
             interval_type span = interval_value_pair.first;
+            if(icl::is_empty(span))
+                return;
+
             std::pair<const_iterator, const_iterator> exterior 
                 = object.equal_range(span);
 
-- 
2.43.0


From 09a09b7be62bc9e0dd876135dd38b9a88ccb061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:13 +0000
Subject: [PATCH 05/21] fix: intersecting a partial interval map with a segment
 combines with the segment's value

The section was built by adding the operand's value to the common segment.
In identity absorbing maps the addition of an identity value is skipped, so
m & (interval, identity) left m's value unchanged instead of combining it
(intersecting it, for set valued maps).
---
 include/boost/icl/interval_base_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index ba2fb10..df22a69 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -535,8 +535,9 @@ private:
             interval_type common_interval = (*it_).first & inter_val; 
             if(!icl::is_empty(common_interval))
             {
-                section.template _add<codomain_combine>  (value_type(common_interval, (*it_).second) );
-                section.template _add<codomain_intersect>(value_type(common_interval, operand.second));
+                codomain_type common_value = (*it_).second;
+                codomain_intersect()(common_value, operand.second);
+                section.template _add<codomain_combine>(segment_type(common_interval, common_value));
             }
         }
     }
-- 
2.43.0


From 03a24697f7bcaabcd967eb0ae955c96358bc96c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:13 +0000
Subject: [PATCH 06/21] fix: hinted addition to interval maps stores the value
 as is

A hinted insertion combined the value with the identity element, which is not
neutral for combiners like max, min, bit_and or identity, so that m1 += m2 gave
other values than adding m2's segments one by one.
---
 include/boost/icl/interval_base_map.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index df22a69..4904df9 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -568,16 +568,13 @@ protected:
         // Never try to insert an identity element into an identity element absorber here:
         BOOST_ASSERT((!(on_absorbtion<type,Combiner,Traits::absorbs_identities>::is_absorbable(co_val))));
 
+        // The value is stored as is like in an insertion without hint: Combining it with
+        // the identity element is not neutral for every Combiner (e.g. max, min).
+        const std::size_t size_before_ = this->_map.size();
         iterator inserted_ 
-            = this->_map.insert(prior_, value_type(inter_val, Combiner::identity_element()));
+            = this->_map.insert(prior_, value_type(inter_val, version<Combiner>()(co_val)));
 
-        if((*inserted_).first == inter_val && (*inserted_).second == Combiner::identity_element())
-        {
-            Combiner()((*inserted_).second, co_val);
-            return std::pair<iterator,bool>(inserted_, true);
-        }
-        else
-            return std::pair<iterator,bool>(inserted_, false);
+        return std::pair<iterator,bool>(inserted_, this->_map.size() != size_before_);
     }
 
     std::pair<iterator, bool>
-- 
2.43.0


From aa9ca1ab0b7e576c032f26cd05307eef629ec23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:35 +0000
Subject: [PATCH 07/21] fix: numeric_minimum of floating point types is the
 lowest value

numeric_limits<double>::min() is the smallest positive value, so that lookups of
keys <= 0 in containers of left open intervals failed an assertion.
---
 include/boost/icl/type_traits/is_numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/icl/type_traits/is_numeric.hpp b/include/boost/icl/type_traits/is_numeric.hpp
index 9ecc3a1..73abfbd 100644
--- a/include/boost/icl/type_traits/is_numeric.hpp
+++ b/include/boost/icl/type_traits/is_numeric.hpp
@@ -65,7 +65,7 @@ template<class Type>
 struct numeric_minimum<Type, std::less<Type>, true>
 {
     static bool is_less_than(Type value)
-    { return std::less<Type>()((std::numeric_limits<Type>::min)(), value); }
+    { return std::less<Type>()((std::numeric_limits<Type>::lowest)(), value); }
 
     static bool is_less_than_or(Type value, bool cond)
     { return cond || is_less_than(value); }
-- 
2.43.0


From 20ffbf37c48053499c472476ae6068d47773fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:40 +0000
Subject: [PATCH 08/21] fix: is_element_less and is_element_greater on interval
 containers

They did not compile, because intervals have no member function touches.
---
 include/boost/icl/detail/element_comparer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/detail/element_comparer.hpp b/include/boost/icl/detail/element_comparer.hpp
index 56ae8c5..463ee81 100644
--- a/include/boost/icl/detail/element_comparer.hpp
+++ b/include/boost/icl/detail/element_comparer.hpp
@@ -12,6 +12,7 @@ Copyright (c) 2008-2009: Joachim Faulhaber
 #include <boost/icl/type_traits/is_map.hpp>
 #include <boost/icl/detail/notate.hpp>
 #include <boost/icl/type_traits/identity_element.hpp>
+#include <boost/icl/concept/interval.hpp>
 
 namespace boost{namespace icl
 {
@@ -124,7 +125,7 @@ public:
             return stop;
         }
 
-        if(!key_value<LeftT>(_prior_left).touches(key_value<LeftT>(left)))
+        if(!icl::touches(key_value<LeftT>(_prior_left), key_value<LeftT>(left)))
         {   // left: same B = sameB...
             // right:sameA  = sameA...
             _result = greater;
@@ -146,7 +147,7 @@ public:
             return stop;
         }
 
-        if(!key_value<RightT>(_prior_right).touches(key_value<RightT>(right)))
+        if(!icl::touches(key_value<RightT>(_prior_right), key_value<RightT>(right)))
         {
             // left: sameA... = sameA...
             // right:same B.. = sameB...
-- 
2.43.0


From 774388f2ca0a1727330b91b1515574498bf0dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:40 +0000
Subject: [PATCH 09/21] fix: is_distinct_equal of interval maps compares
 elements

It compared segment by segment, so that split_interval_maps with equal elements
but different segmentation were not distinct equal.
---
 .../boost/icl/concept/interval_associator.hpp |  2 +-
 .../boost/icl/detail/interval_map_algo.hpp    | 50 +++++++++++++++++++
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/interval_associator.hpp b/include/boost/icl/concept/interval_associator.hpp
index 37c92b1..b705065 100644
--- a/include/boost/icl/concept/interval_associator.hpp
+++ b/include/boost/icl/concept/interval_associator.hpp
@@ -100,7 +100,7 @@ typename enable_if< is_concept_compatible<is_interval_map, LeftT, RightT>,
                     bool >::type
 is_distinct_equal(const LeftT& left, const RightT& right)
 {
-    return Map::lexicographical_distinct_equal(left, right);
+    return Interval_Map::is_distinct_equal(left, right);
 }
 
 //==============================================================================
diff --git a/include/boost/icl/detail/interval_map_algo.hpp b/include/boost/icl/detail/interval_map_algo.hpp
index 7d2432d..f288304 100644
--- a/include/boost/icl/detail/interval_map_algo.hpp
+++ b/include/boost/icl/detail/interval_map_algo.hpp
@@ -19,6 +19,7 @@ Copyright (c) 2008-2010: Joachim Faulhaber
 #include <boost/icl/interval_combining_style.hpp>
 #include <boost/icl/detail/element_comparer.hpp>
 #include <boost/icl/detail/interval_subset_comparer.hpp>
+#include <boost/icl/detail/map_algo.hpp>
 
 namespace boost{namespace icl
 {
@@ -53,6 +54,55 @@ bool is_joinable(const IntervalMapT& container,
     return true;
 }
 
+//------------------------------------------------------------------------------
+//- Distinct equality: element equality except for identity elements as values
+//------------------------------------------------------------------------------
+template<class MapT>
+bool is_distinct_equal(const MapT& left, const MapT& right)
+{
+    typedef typename MapT::const_iterator const_iterator;
+
+    const_iterator left_  = left.begin(),  prior_left_  = left.end();
+    const_iterator right_ = right.begin(), prior_right_ = right.end();
+    // true, if the current segment continues where the other container's 
+    // prior segments have ended.
+    bool within_left_ = false, within_right_ = false;
+
+    while(true)
+    {
+        if(!within_left_)
+            left_  = Map::next_proton(left_,  left);
+        if(!within_right_)
+            right_ = Map::next_proton(right_, right);
+
+        if(left_ == left.end() || right_ == right.end())
+            return left_ == left.end() && right_ == right.end();
+
+        if(within_right_)     // *left_ has to continue *prior_left_
+        {
+            if(!icl::touches((*prior_left_).first, (*left_).first))
+                return false;
+        }
+        else if(within_left_) // *right_ has to continue *prior_right_
+        {
+            if(!icl::touches((*prior_right_).first, (*right_).first))
+                return false;
+        }
+        else if(!lower_equal((*left_).first, (*right_).first))
+            return false;
+
+        if(!((*left_).second == (*right_).second))
+            return false;
+
+        within_left_  = upper_less((*right_).first, (*left_).first);
+        within_right_ = upper_less((*left_).first, (*right_).first);
+        if(!within_left_)
+            prior_left_ = left_++;
+        if(!within_right_)
+            prior_right_ = right_++;
+    }
+}
+
 //------------------------------------------------------------------------------
 //- Containedness of key objects
 //------------------------------------------------------------------------------
-- 
2.43.0


From fa9a34c87490264acb2bd6e732b8ba50bac54aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 10/21] fix: element iteration over decreasing domain orders

Element iterators moved away from the segment's elements, if the domain is
ordered by std::greater.
---
 include/boost/icl/detail/element_iterator.hpp | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/detail/element_iterator.hpp b/include/boost/icl/detail/element_iterator.hpp
index b3a2db9..33413f5 100644
--- a/include/boost/icl/detail/element_iterator.hpp
+++ b/include/boost/icl/detail/element_iterator.hpp
@@ -125,6 +125,17 @@ struct elemental;
 #endif //ICL_USE_INTERVAL_TEMPLATE_TEMPLATE
 
 
+//------------------------------------------------------------------------------
+// Position of the element that is distance elements after (before) the border 
+// element in the direction of the domain's order.
+template<class IntervalT, class DomainT, class DifferenceT>
+inline DomainT element_from(bool forward, const DomainT& border, const DifferenceT& distance)
+{
+    typedef typename interval_traits<IntervalT>::domain_compare domain_compare;
+    return forward == is_increasing<DomainT,domain_compare>::value 
+        ? border + distance : border - distance;
+}
+
 //------------------------------------------------------------------------------
 //- struct segment_adapter
 //------------------------------------------------------------------------------
@@ -206,8 +217,9 @@ struct segment_adapter
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper, 
                                           const domain_difference_type& sneaker)
     { 
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(*leaper)  - sneaker
-                                                        : icl::first(*leaper) + sneaker;
+        inter_pos = is_reverse<SegmentIteratorT>::value 
+            ? element_from<interval_type>(false, icl::last(*leaper),  sneaker)
+            : element_from<interval_type>(true,  icl::first(*leaper), sneaker);
         return inter_pos; 
     }
 };
@@ -231,8 +243,9 @@ struct segment_adapter<SegmentIteratorT, std::pair<ICL_INTERVAL_TYPE(Interval,Do
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper,
                                           const domain_difference_type& sneaker)
     {
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(leaper->first)  - sneaker
-                                                        : icl::first(leaper->first) + sneaker;
+        inter_pos = is_reverse<SegmentIteratorT>::value 
+            ? element_from<interval_type>(false, icl::last(leaper->first),  sneaker)
+            : element_from<interval_type>(true,  icl::first(leaper->first), sneaker);
         return transit_type(inter_pos, leaper->second); 
     }
 };
-- 
2.43.0


From 1c586ada38e1731066ef8bd48939f99dbf55a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:31 +0000
Subject: [PATCH 11/21] fix: combining an interval map with itself

---
 include/boost/icl/concept/interval_associator.hpp | 6 ++++++
 include/boost/icl/concept/interval_map.hpp        | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/include/boost/icl/concept/interval_associator.hpp b/include/boost/icl/concept/interval_associator.hpp
index b705065..eac3a3b 100644
--- a/include/boost/icl/concept/interval_associator.hpp
+++ b/include/boost/icl/concept/interval_associator.hpp
@@ -318,6 +318,9 @@ template<class Type, class OperandT>
 typename enable_if<is_intra_combinable<Type, OperandT>, Type>::type&
 operator += (Type& object, const OperandT& operand)
 {
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+        return object += Type(object); // Adding may join or erase segments of operand
+
     typename Type::iterator prior_ = object.end();
     ICL_const_FORALL(typename OperandT, elem_, operand) 
         prior_ = icl::add(object, prior_, *elem_); 
@@ -671,6 +674,9 @@ typename enable_if<is_concept_compatible<is_interval_map, Type, OperandT>,
                    Type>::type& 
 operator -=(Type& object, const OperandT& operand)
 {
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+        return object -= Type(object); // Subtracting may join or erase segments of operand
+
     ICL_const_FORALL(typename OperandT, elem_, operand) 
         icl::subtract(object, *elem_);
 
diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index 58298d8..bf1d76d 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -540,6 +540,9 @@ flip(Type& object, const OperandT& operand)
     typedef typename OperandT::const_iterator const_iterator;
     //CL typedef typename Type::codomain_type  codomain_type;
 
+    if(static_cast<const void*>(&object) == static_cast<const void*>(&operand))
+        return icl::flip(object, Type(object)); // Flipping may join or erase segments of operand
+
     const_iterator common_lwb, common_upb;
 
     if(!Set::common_range(common_lwb, common_upb, operand, object))
-- 
2.43.0


From 58e88b298cd3c523a66bdfcae298861ada82c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 12/21] fix: add_if and assign_if on maps and element
 containers

add_if never advanced past an element its predicate rejects, and assign_if
passed its arguments in the wrong order.
---
 include/boost/icl/concept/element_associator.hpp | 3 ++-
 include/boost/icl/concept/interval_map.hpp       | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 4d37e25..d050f84 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -485,6 +485,7 @@ add_if(const Predicate& pred, Type& object, const Type& src)
     while(it_ != src.end())
         if(pred(*it_))
             icl::add(object, *it_++);
+        else ++it_;
 
     return object;
 }
@@ -494,7 +495,7 @@ inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 assign_if(const Predicate& pred, Type& object, const Type& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return add_if(pred, object, src);
 }
 
 
diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index bf1d76d..7ff6df7 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -622,8 +622,9 @@ add_if(const Predicate& pred, MapT& object, const MapT& src)
 {
     typename MapT::const_iterator it_ = src.begin();
     while(it_ != src.end())
-        if(pred(*it_)) 
-            icl::add(object, *it_++); 
+        if(pred(*it_))
+            icl::add(object, *it_++);
+        else ++it_;
     
     return object;
 }
@@ -633,7 +634,7 @@ inline typename enable_if<is_interval_map<MapT>, MapT>::type&
 assign_if(const Predicate& pred, MapT& object, const MapT& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return add_if(pred, object, src);
 }
 
 
-- 
2.43.0


From 5d7815692192e29caa76ea9a75970dc09977ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 13/21] fix: make disjoint and operator ^= usable for element
 containers

Both are documented for std::set and icl::map but could not be called: disjoint
had a template parameter that cannot be deduced, operator ^= used a member type
that std::set does not have.
---
 include/boost/icl/concept/element_associator.hpp | 4 ++--
 include/boost/icl/concept/element_set.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index d050f84..543f5ad 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -430,11 +430,11 @@ operator & (Type object, const Type& operand)
 }
 //------------------------------------------------------------------------------
 
-template<class Type, class CoType>
+template<class Type>
 inline typename enable_if<is_associative_element_container<Type>, bool>::type
 disjoint(const Type& left, const Type& right)
 {
-    return !intersects(left, right);
+    return !icl::intersects(left, right);
 }
 
 //==============================================================================
diff --git a/include/boost/icl/concept/element_set.hpp b/include/boost/icl/concept/element_set.hpp
index 8db130e..e7c9096 100644
--- a/include/boost/icl/concept/element_set.hpp
+++ b/include/boost/icl/concept/element_set.hpp
@@ -93,7 +93,7 @@ flip(Type& object, const typename Type::value_type& operand)
 
 template<class Type>
 inline typename enable_if<is_element_set<Type>, Type>::type&
-operator ^= (Type& object, const typename Type::element_type& operand)
+operator ^= (Type& object, const typename Type::value_type& operand)
 {
     return icl::flip(object, operand); 
 }
-- 
2.43.0


From 6229abe50a493607cc46f5470e234bbea55bf407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:21 +0000
Subject: [PATCH 14/21] fix: selection functions of element containers

set_at, erase with a key set, subtract with a key, intersects with a key or key
set, erase_if and intersects/within of std::set did not compile (or only in some
include orders), absorb_identities had its two cases swapped, set_at ignored an
identity value instead of making an absorber forget the key, and inserting a
range returned nothing.
---
 .../boost/icl/concept/element_associator.hpp  |  3 ++-
 include/boost/icl/concept/element_map.hpp     | 25 +++++++++++++------
 include/boost/icl/concept/element_set.hpp     |  2 +-
 include/boost/icl/map.hpp                     |  7 +++---
 4 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 543f5ad..89395bb 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -13,6 +13,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <boost/icl/type_traits/is_key_container_of.hpp>
 #include <boost/icl/type_traits/is_combinable.hpp>
 #include <boost/icl/detail/subset_comparer.hpp>
+#include <boost/icl/detail/associated_value.hpp>
 #include <boost/icl/concept/element_set.hpp>
 #include <boost/icl/concept/element_map.hpp>
 
@@ -472,7 +473,7 @@ erase_if(const Predicate& pred, Type& object)
     typename Type::iterator it_ = object.begin();
     while(it_ != object.end())
         if(pred(*it_))
-            icl::erase(object, it_++);
+            object.erase(it_++);
         else ++it_;
     return object;
 }
diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index b2d78ab..a0f9703 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -29,6 +29,10 @@ template<class Type, class Predicate>
 typename enable_if<is_associative_element_container<Type>, Type>::type&
 erase_if(const Predicate& pred, Type& object);
 
+template<class Type>
+typename enable_if<is_associative_element_container<Type>, typename Type::size_type>::type
+erase(Type& object, const typename Type::key_type& key_value);
+
 
 //==============================================================================
 //= Containedness<ElementMap>
@@ -150,7 +154,8 @@ template <class Type>
 typename enable_if<is_element_map<Type>, Type>::type&
 subtract(Type& object, const typename Type::domain_type& key_value)
 {
-    return icl::erase(object, key_value);
+    icl::erase(object, key_value);
+    return object;
 }
 
 //------------------------------------------------------------------------------
@@ -203,8 +208,11 @@ set_at(Type& object, const typename Type::element_type& operand)
     {
         std::pair<iterator,bool> insertion = object.insert(operand);
         if(!insertion.second)
-            insertion->second = operand.second;
+            insertion.first->second = operand.second;
     }
+    else
+        icl::erase(object, operand.first);
+
     return object;
 }
 
@@ -315,7 +323,7 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , bool>::type
 intersects(const Type& object, const typename Type::domain_type& operand)
 {
-    return icl::contains(object, operand);
+    return !(object.find(operand) == object.end());
 }
 
 template<class Type>
@@ -324,7 +332,7 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , bool>::type
 intersects(const Type& object, const typename Type::set_type& operand)
 {
-    if(object.iterative_size() < operand.iterative_size())
+    if(object.size() < operand.size())
         return Map::intersects(object, operand);
     else
         return Map::intersects(operand, object);
@@ -449,15 +457,18 @@ inline typename enable_if<mpl::and_< is_element_map<Type>
                                    , absorbs_identities<Type> >, Type>::type&
 absorb_identities(Type& object)
 {
-    typedef typename Type::element_type element_type;
-    return icl::erase_if(content_is_identity_element<element_type>(), object);
+    return object;
 }
 
 template<class Type>
 inline typename enable_if<mpl::and_< is_element_map<Type>
                                    , mpl::not_<absorbs_identities<Type> > >
                          , Type>::type&
-absorb_identities(Type&){}
+absorb_identities(Type& object)
+{
+    typedef typename Type::element_type element_type;
+    return icl::erase_if(content_is_identity_element<element_type>(), object);
+}
 
 //==============================================================================
 //= Streaming<ElementMap>
diff --git a/include/boost/icl/concept/element_set.hpp b/include/boost/icl/concept/element_set.hpp
index e7c9096..aabfa9f 100644
--- a/include/boost/icl/concept/element_set.hpp
+++ b/include/boost/icl/concept/element_set.hpp
@@ -70,7 +70,7 @@ template<class Type>
 inline typename enable_if<is_element_set<Type>, bool>::type
 intersects(const Type& object, const Type& operand)
 {
-    if(iterative_size(object) < iterative_size(operand))
+    if(object.size() < operand.size())
         return Set::intersects(object, operand);
     else
         return Set::intersects(operand, object);
diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 3877745..da4dca7 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -339,9 +339,10 @@ public:
     template<class Iterator>
     iterator insert(Iterator first, Iterator last)
     {
-        iterator prior = end(), it = first;
-        while(it != last)
-            prior = this->insert(prior, *it++);
+        iterator prior = end();
+        for(Iterator it = first; it != last; ++it)
+            prior = this->insert(prior, *it);
+        return prior;
     }
 
     /** With <tt>key_value_pair = (k,v)</tt> set value \c v for key \c k */
-- 
2.43.0


From 940cb5fbba77aa4158a71170f17b663000d03b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:21 +0000
Subject: [PATCH 15/21] fix: hinted addition and intersection with a pair on
 icl::map

Both combined the operand with an identity element, which is not neutral for
every combiner (max, min, set intersection), as interval maps did before.
---
 include/boost/icl/map.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index da4dca7..9f51237 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -400,8 +400,9 @@ private:
         const_iterator it_ = find(operand.first);
         if(it_ != end())
         {
-            section.template _add<codomain_combine  >(*it_);
-            section.template _add<codomain_intersect>(operand);
+            codomain_type common_value = (*it_).second;
+            codomain_intersect()(common_value, operand.second);
+            section.template _add<codomain_combine>(element_type(operand.first, common_value));
         }
     }
 
@@ -617,10 +618,13 @@ typename map<DomainT,CodomainT,Traits,Compare,Combine,Section,Alloc>::iterator
     if(on_absorbtion_::is_absorbable(co_val))
         return end();
 
+    // The value is stored as is like in an insertion without hint: Combining it with
+    // the identity element is not neutral for every Combiner (e.g. max, min).
+    const size_type size_before_ = base_type::size();
     iterator inserted_
-        = base_type::insert(prior_,
-                            value_type(addend.first, Combiner::identity_element()));
-    Combiner()((*inserted_).second, addend.second);
+        = base_type::insert(prior_, value_type(addend.first, version<Combiner>()(co_val)));
+    if(base_type::size() == size_before_)
+        Combiner()((*inserted_).second, co_val);
 
     if(on_absorbtion_::is_absorbable((*inserted_).second))
     {
-- 
2.43.0


From 273a8ea34da5663ef08206e69f5e8f5ba3ca35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:21 +0000
Subject: [PATCH 16/21] fix: subtracting an identity value from an absorbing
 icl::map is a no-op

An absorber treats a pair with an identity value as absent; interval maps ignore
it, but for combiners like min icl::map changed or erased the stored value.
---
 include/boost/icl/map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 9f51237..432d15a 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -647,6 +647,9 @@ map<DomainT,CodomainT,Traits,Compare,Combine,Section,Alloc>&
     typedef typename on_absorbtion
         <type,Combiner,absorbs_identities<type>::value>::type on_absorbtion_;
 
+    if(on_absorbtion_::is_absorbable(minuend.second))
+        return *this;
+
     iterator it_ = find(minuend.first);
     if(it_ != end())
     {
-- 
2.43.0


From af3e8ba769f50443c9b15696e965368fae720f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:32 +0000
Subject: [PATCH 17/21] fix: combining an element container with itself

+= returned without effect (m += m must double an icl::map's values), -= and
erase removed the elements they were iterating over.
---
 include/boost/icl/concept/element_associator.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 89395bb..2959661 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -192,8 +192,8 @@ template <class Type>
 inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 operator += (Type& object, const Type& operand)
 {
-    if(&object == &operand)
-        return object;
+    if(&object == &operand) // *it_ must not change or vanish while it is added
+        return object += Type(operand);
 
     typename Type::iterator prior_ = object.end();
     ICL_const_FORALL(typename Type, it_, operand)
@@ -307,6 +307,9 @@ template<class Type>
 typename enable_if<is_associative_element_container<Type>, Type>::type&
 erase(Type& object, const Type& erasure)
 {
+    if(&object == &erasure) // *elem_ must not vanish while it is erased
+        return icl::erase(object, Type(erasure));
+
     ICL_const_FORALL(typename Type, elem_, erasure)
         icl::erase(object, *elem_);
 
@@ -336,6 +339,9 @@ template <class Type>
 inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 operator -= (Type& object, const Type& subtrahend)
 {
+    if(&object == &subtrahend) // *it_ must not vanish while it is subtracted
+        return object -= Type(subtrahend);
+
     ICL_const_FORALL(typename Type, it_, subtrahend)
         icl::subtract(object, *it_);
 
-- 
2.43.0


From 0b6f52169cfdb6e9531f3b7350dd500c776568b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:07 +0000
Subject: [PATCH 18/21] fix: sizes of large discrete intervals overflow the key
 type

---
 include/boost/icl/concept/interval.hpp | 78 +++++++++++++++++++++++---
 1 file changed, 71 insertions(+), 7 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index ab85d80..ea0b45c 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -14,6 +14,9 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <boost/mpl/and.hpp>
 #include <boost/mpl/or.hpp>
 #include <boost/mpl/not.hpp>
+#include <boost/type_traits/is_integral.hpp>
+#include <boost/type_traits/is_same.hpp>
+#include <boost/type_traits/make_unsigned.hpp>
 #include <boost/icl/detail/design_config.hpp>
 #include <boost/icl/type_traits/unit_element.hpp>
 #include <boost/icl/type_traits/identity_element.hpp>
@@ -64,6 +67,44 @@ domain_equal(const typename interval_traits<Type>::domain_type& left,
 }
 
 //- domain_span ----------------------------------------------------------------
+namespace detail
+{
+    // Subtraction and extent of non empty ranges of domain values. Integral
+    // values are subtracted in their unsigned type, where the difference of
+    // any two values is representable, and the successor of the last element
+    // is not needed.
+    template<class DomainT, bool IsIntegral>
+    struct domain_span_impl
+    {
+        template<class ResultT>
+        static ResultT difference(const DomainT& low, const DomainT& up)
+        {
+            return static_cast<ResultT>(up - low);
+        }
+    };
+
+    template<class DomainT>
+    struct domain_span_impl<DomainT, true>
+    {
+        template<class ResultT>
+        static ResultT difference(const DomainT& low, const DomainT& up)
+        {
+            typedef typename boost::make_unsigned<DomainT>::type unsigned_type;
+            return static_cast<ResultT>(static_cast<unsigned_type>(
+                static_cast<unsigned_type>(up) - static_cast<unsigned_type>(low)));
+        }
+    };
+
+    template<class DomainT>
+    struct is_integral_domain
+    {
+        typedef is_integral_domain type;
+        BOOST_STATIC_CONSTANT(bool,
+            value = (mpl::and_< boost::is_integral<DomainT>
+                              , mpl::not_<boost::is_same<DomainT, bool> > >::value));
+    };
+} // namespace detail
+
 // The difference between low and up in the direction of the domain's order.
 template<class ResultT, class Type>
 inline ResultT
@@ -72,9 +113,11 @@ domain_span(const typename interval_traits<Type>::domain_type& low,
 {
     typedef typename interval_traits<Type>::domain_type    domain_type;
     typedef typename interval_traits<Type>::domain_compare domain_compare;
+    typedef detail::domain_span_impl
+        <domain_type, detail::is_integral_domain<domain_type>::value> impl;
     return is_increasing<domain_type,domain_compare>::value ?
-             static_cast<ResultT>(up - low)
-           : static_cast<ResultT>(low - up);
+             impl::template difference<ResultT>(low, up)
+           : impl::template difference<ResultT>(up, low);
 }
 
 template<class Type>
@@ -1005,6 +1048,27 @@ touches(const Type& left, const Type& right)
 //==============================================================================
 //= Size
 //==============================================================================
+//- discrete_extent ------------------------------------------------------------
+/** The number of elements of the non empty discrete interval \c object. */
+template<class ResultT, class Type>
+inline typename boost::enable_if
+    < detail::is_integral_domain<typename interval_traits<Type>::domain_type>
+    , ResultT>::type
+discrete_extent(const Type& object)
+{   // last_next(object) is not necessarily representable
+    ResultT extent = domain_span<ResultT,Type>(first(object), last(object));
+    return ++extent;
+}
+
+template<class ResultT, class Type>
+inline typename boost::disable_if
+    < detail::is_integral_domain<typename interval_traits<Type>::domain_type>
+    , ResultT>::type
+discrete_extent(const Type& object)
+{
+    return domain_span<ResultT,Type>(first(object), last_next(object));
+}
+
 //- cardinality ----------------------------------------------------------------
 
 template<class Type>
@@ -1029,7 +1093,7 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : domain_span<SizeT,Type>(first(object), last_next(object));
+                                 : discrete_extent<SizeT,Type>(object);
 }
 
 template<class Type>
@@ -1051,7 +1115,7 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : domain_span<SizeT,Type>(first(object), last_next(object));
+                                 : discrete_extent<SizeT,Type>(object);
 }
 
 template<class Type>
@@ -1061,7 +1125,7 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : domain_span<SizeT,Type>(first(object), last_next(object));
+                                 : discrete_extent<SizeT,Type>(object);
 }
 
 
@@ -1093,7 +1157,7 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : domain_span<DiffT,Type>(first(object), last_next(object));
+                                 : discrete_extent<DiffT,Type>(object);
 }
 
 template<class Type>
@@ -1113,7 +1177,7 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : domain_span<DiffT,Type>(first(object), last_next(object));
+                                 : discrete_extent<DiffT,Type>(object);
 }
 
 //- iterative_size -------------------------------------------------------------
-- 
2.43.0


From faf5c69b5987e98a834c256d29cd8cbf1ac095e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:38 +0000
Subject: [PATCH 19/21] fix: containment and equality of empty intervals of
 unsigned keys

---
 include/boost/icl/concept/interval.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index ea0b45c..1f3d349 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -909,14 +909,16 @@ template<class Type>
 inline typename boost::enable_if<is_interval<Type>, bool>::type
 contains(const Type& super, const Type& sub)
 {
-    return icl::is_empty(sub) || non_empty::contains(super, sub);
+    return icl::is_empty(sub)
+        || (!icl::is_empty(super) && non_empty::contains(super, sub));
 }
 
 template<class Type>
 typename boost::enable_if<is_discrete_static<Type>, bool>::type
 contains(const Type& super, const typename interval_traits<Type>::domain_type& element)
 {
-    return domain_less_equal<Type>(icl::first(super), element                  )
+    return !icl::is_empty(super)
+        && domain_less_equal<Type>(icl::first(super), element                  )
         && domain_less_equal<Type>(                   element, icl::last(super));
 }
 
@@ -963,8 +965,10 @@ template<class Type>
 typename boost::enable_if<is_interval<Type>, bool>::type
 operator == (const Type& left, const Type& right)
 {
-    return (icl::is_empty(left) && icl::is_empty(right))
-        || (lower_equal(left,right) && upper_equal(left,right));
+    if(icl::is_empty(left) || icl::is_empty(right))
+        return icl::is_empty(left) && icl::is_empty(right);
+
+    return lower_equal(left,right) && upper_equal(left,right);
 }
 
 template<class Type>
-- 
2.43.0


From 2f1d8c2c8bd3ae896e0e5c0e9c4cc3bbe6c22506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:38 +0000
Subject: [PATCH 20/21] fix: touches wraps around at the maximum of the key
 type

---
 include/boost/icl/concept/interval.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index 1f3d349..49c6848 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -1030,14 +1030,18 @@ template<class Type>
 typename boost::enable_if<has_symmetric_bounds<Type>, bool>::type
 touches(const Type& left, const Type& right)
 {
-    return domain_equal<Type>(last_next(left), first(right));
+    // The successor of last(left) exists, if there are greater elements
+    return domain_less<Type>(upper(left), upper(right))
+        && domain_equal<Type>(last_next(left), first(right));
 }
 
 template<class Type>
 typename boost::enable_if<is_discrete_interval<Type>, bool>::type
 touches(const Type& left, const Type& right)
 {
-    return domain_equal<Type>(domain_next<Type>(last(left)), first(right));
+    // The successor of last(left) exists, if there are greater elements
+    return domain_less<Type>(last(left), first(right))
+        && domain_equal<Type>(domain_next<Type>(last(left)), first(right));
 }
 
 template<class Type>
-- 
2.43.0


From 43615dd0fa272b40539dc615d41b89d21f568d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:47 +0000
Subject: [PATCH 21/21] fix: element iteration of long segments of signed
 integral keys

---
 include/boost/icl/detail/element_iterator.hpp | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/boost/icl/detail/element_iterator.hpp b/include/boost/icl/detail/element_iterator.hpp
index 33413f5..df837f1 100644
--- a/include/boost/icl/detail/element_iterator.hpp
+++ b/include/boost/icl/detail/element_iterator.hpp
@@ -10,8 +10,10 @@ Copyright (c) 2009-2009: Joachim Faulhaber
 
 #include <boost/mpl/if.hpp>
 #include <boost/iterator/iterator_facade.hpp>
+#include <boost/type_traits/make_unsigned.hpp>
 #include <boost/icl/type_traits/succ_pred.hpp>
 #include <boost/icl/detail/mapped_reference.hpp>
+#include <boost/icl/concept/interval.hpp>
 
 namespace boost{namespace icl
 {
@@ -125,6 +127,29 @@ struct elemental;
 #endif //ICL_USE_INTERVAL_TEMPLATE_TEMPLATE
 
 
+//------------------------------------------------------------------------------
+// Type of distances between elements of a segment. Distances of values of a
+// signed integral type are not necessarily representable in that type.
+template<class IntervalT, bool IsIntegral>
+struct element_distance_impl
+{
+    typedef typename difference_type_of<interval_traits<IntervalT> >::type type;
+};
+
+template<class IntervalT>
+struct element_distance_impl<IntervalT, true>
+{
+    typedef typename boost::make_unsigned
+        <typename interval_traits<IntervalT>::domain_type>::type type;
+};
+
+template<class IntervalT>
+struct element_distance
+    : element_distance_impl
+      < IntervalT
+      , detail::is_integral_domain<typename interval_traits<IntervalT>::domain_type>::value>
+{};
+
 //------------------------------------------------------------------------------
 // Position of the element that is distance elements after (before) the border 
 // element in the direction of the domain's order.
@@ -207,12 +232,11 @@ struct segment_adapter
     typedef domain_type                              codomain_type;
     typedef domain_type                              element_type;
     typedef domain_type&                             transit_type;
-    typedef typename difference_type_of<interval_traits<interval_type> >::type 
-                                                     domain_difference_type;
+    typedef typename element_distance<interval_type>::type domain_difference_type;
 
     static domain_type     first (const SegmentIteratorT& leaper){ return leaper->first(); } 
     static domain_type     last  (const SegmentIteratorT& leaper){ return leaper->last();  } 
-    static domain_difference_type length(const SegmentIteratorT& leaper){ return icl::length(*leaper);}
+    static domain_difference_type length(const SegmentIteratorT& leaper){ return icl::discrete_extent<domain_difference_type>(*leaper);}
 
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper, 
                                           const domain_difference_type& sneaker)
@@ -233,12 +257,11 @@ struct segment_adapter<SegmentIteratorT, std::pair<ICL_INTERVAL_TYPE(Interval,Do
     typedef CodomainT                                      codomain_type;
     typedef std::pair<domain_type, codomain_type>          element_type;
     typedef mapped_reference<domain_type, CodomainT>       transit_type;    
-    typedef typename difference_type_of<interval_traits<interval_type> >::type 
-                                                           domain_difference_type;
+    typedef typename element_distance<interval_type>::type domain_difference_type;
 
     static domain_type     first (const SegmentIteratorT& leaper){ return leaper->first.first(); } 
     static domain_type     last  (const SegmentIteratorT& leaper){ return leaper->first.last();  } 
-    static domain_difference_type length(const SegmentIteratorT& leaper){ return icl::length(leaper->first);}
+    static domain_difference_type length(const SegmentIteratorT& leaper){ return icl::discrete_extent<domain_difference_type>(leaper->first);}
 
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper,
                                           const domain_difference_type& sneaker)
@@ -271,8 +294,7 @@ public:
     typedef typename elemental<segment_type>::codomain_type codomain_type;
     typedef typename elemental<segment_type>::transit_type  transit_type;
     typedef transit_type                                    value_type;
-    typedef typename difference_type_of<interval_traits<interval_type> >::type 
-                                                            domain_difference_type;
+    typedef typename element_distance<interval_type>::type domain_difference_type;
 
 private:
     typedef typename segment_adapter<segment_iterator,segment_type>::type adapt;
-- 
2.43.0

