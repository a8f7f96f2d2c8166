From 3399b6a18c43e0fe72afe7ea29081a1c8f179e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:16 +0000
Subject: [PATCH 01/25] fix: reverse: query lengths with the translated
 (sub-structure) state

reverse_t::length passed the outer state to the sub-structure, so in a
reversed tuple dimension the length of an inner dimension was looked up in
the wrong tuple field.
---
 include/noarr/structures/structs/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index 4a62f74..fb6120b 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -791,7 +791,7 @@ public:
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(state);
+		return sub_structure().template length<QDim>(sub_state(state));
 	}
 };
 
-- 
2.43.0


From 99f18bf0fac748d83dd104885b33be018751e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:16 +0000
Subject: [PATCH 02/25] fix: join: report the length of the joined dimension

join_t forwarded length queries by name, so a joined dimension with a new
name had no length (it could not be traversed) while the two consumed
dimensions still reported theirs.
---
 include/noarr/structures/structs/views.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index eaf336f..77dafc5 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -660,14 +660,25 @@ public:
 	requires IsDim<decltype(QDim)>
 	[[nodiscard]]
 	static consteval bool has_length() noexcept {
-		return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		if constexpr (QDim == Dim) {
+			return sub_structure_t::template has_length<DimA, sub_state_t<State>>();
+		} else if constexpr (QDim == DimA || QDim == DimB) {
+			// This dimension is consumed by join
+			return false;
+		} else {
+			return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		}
 	}
 
 	template<auto QDim, IsState State>
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(sub_state(state));
+		if constexpr (QDim == Dim) {
+			return sub_structure().template length<DimA>(sub_state(state));
+		} else {
+			return sub_structure().template length<QDim>(sub_state(state));
+		}
 	}
 };
 
-- 
2.43.0


From 6729fb6f797eeb03dca7946326ef731d0e6706c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:21 +0000
Subject: [PATCH 03/25] fix: join: remove both joined dimensions from the
 signature

---
 include/noarr/structures/structs/views.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index 77dafc5..5949198 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -600,7 +600,8 @@ private:
 
 public:
 	using signature = function_sig<Dim, typename dim_a::arg_length,
-	                               typename T::signature::template replace<sig_remove_first, DimA, DimB>>;
+	                               typename T::signature::template replace<sig_remove_first, DimA>::template replace<
+	                                   sig_remove_first, DimB>>;
 
 	template<IsState State>
 	[[nodiscard]]
-- 
2.43.0


From ad919497a285f067a51b4bc6e1a0dcefb7a8843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:19 +0000
Subject: [PATCH 04/25] fix: merge_zcurve: compute the mask of the aligned part
 in std::size_t

---
 include/noarr/structures/structs/zcurve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index 969296f..fab0014 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -195,7 +195,7 @@ private:
 			if constexpr (state_contains<State, index_in<Dim>>) {
 				const std::size_t index = state.template get<index_in<Dim>>();
 				const auto index_general = index >> SpecialLevel * sizeof...(Dims);
-				const auto index_special = index & ((1U << SpecialLevel * sizeof...(Dims)) - 1U);
+				const auto index_special = index & ((static_cast<std::size_t>(1U) << SpecialLevel * sizeof...(Dims)) - 1U);
 				const auto indices = helpers::zc_general<GeneralLevel - SpecialLevel>(
 					index_general, (sub_structure.template length<Dims>(tmp_state) >> SpecialLevel)...);
 				return tmp_state.template with<index_in<Dims>...>(
-- 
2.43.0


From 4262bb6c129e5446145a984ce5a968660bb1c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:19 +0000
Subject: [PATCH 05/25] fix: merge_zcurve: do not shift by the full width when
 merging a single dimension

---
 include/noarr/structures/structs/zcurve.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index fab0014..75f43be 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -105,7 +105,8 @@ template<std::size_t NDim, std::size_t... I>
 constexpr std::size_t zc_special_inner(std::size_t tmp, std::index_sequence<I...> /*is*/) noexcept {
 	(..., (tmp &= zc_special_helper<(NDim << I), (static_cast<std::size_t>(1U) << (1U << I)) - 1U>::rep_bits,
 	       tmp |= tmp >> ((NDim - 1U) << I)));
-	return tmp & ((static_cast<std::size_t>(1U) << (1U << sizeof...(I))) - 1U);
+	// two shifts, so that a mask of all bits (a single dimension) does not shift by the full width
+	return tmp & ((static_cast<std::size_t>(1U) << ((1U << sizeof...(I)) - 1U) << 1U) - 1U);
 }
 
 template<std::size_t NDim, std::size_t Dim>
-- 
2.43.0


From 0464863f5a91d5d8b4f105bfca796ffbf5f7fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:24 +0000
Subject: [PATCH 06/25] fix: planner: traverse structures with tuple dimensions
 (missing bottom case)

---
 include/noarr/structures/extra/planner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 5c2a1e2..96680a9 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -397,6 +397,10 @@ private:
 		for_each_impl_dep<Dim, Branches...>(state, std::index_sequence<Is...>());
 	}
 
+	// the bottom case
+	template<auto Dim>
+	constexpr void for_each_impl_dep(auto /*state*/, std::index_sequence<> /*is*/) const {}
+
 	template<auto Dim, class... Branches, IsState State>
 	constexpr void for_each_impl(dim_tree<Dim, Branches...> /*dt*/, State state) const {
 		if constexpr (helpers::is_activated_v<decltype(get_ending().order(
-- 
2.43.0


From 7d23f92a2bf8111bf8c23a466134fc766d3a20fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:06 +0000
Subject: [PATCH 07/25] fix: planner: honour dimensions that do not contribute
 an index (into_blocks_dynamic)

---
 include/noarr/structures/extra/planner.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 96680a9..13ee167 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -63,13 +63,15 @@ public:
 
 	template<class Planner>
 	constexpr void operator()(const Planner &planner) const {
-		return run(planner, std::make_index_sequence<Planner::num_structs>());
+		// there may be dimensions left that do not contribute an index, e.g. `DimIsPresent` of `into_blocks_dynamic`
+		traverser(planner.get_union()).order(planner.get_order()).for_each([this, &planner](auto state) {
+			run(planner, state, std::make_index_sequence<Planner::num_structs>());
+		});
 	}
 
 private:
-	template<class Planner, std::size_t... Idxs>
-	constexpr void run(const Planner &planner, std::index_sequence<Idxs...> /*unused*/) const {
-		const auto state = planner.state();
+	template<class Planner, IsState State, std::size_t... Idxs>
+	constexpr void run(const Planner &planner, State state, std::index_sequence<Idxs...> /*unused*/) const {
 		if constexpr (requires(F f) { f(state, planner.template get_struct<Idxs>()[state]...); }) {
 			base::get()(state, planner.template get_struct<Idxs>()[state]...);
 		} else {
@@ -113,7 +115,8 @@ public:
 
 	template<class Planner>
 	constexpr void operator()(const Planner &planner) const {
-		base::get()(planner.state());
+		// there may be dimensions left that do not contribute an index, e.g. `DimIsPresent` of `into_blocks_dynamic`
+		traverser(planner.get_union()).order(planner.get_order()).for_each([this](auto state) { base::get()(state); });
 	}
 };
 
-- 
2.43.0


From 419c72b55a79309798985f50cb34a71c58066d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:41 +0000
Subject: [PATCH 08/25] fix: lower bound of a range in a reversed dimension
 includes the range's first index

---
 .../noarr/structures/introspection/lower_bound_along.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 21fd02e..71dc4f3 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -827,12 +827,11 @@ public:
 
 		if constexpr (QDim == Dim) {
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
-			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state,
-			                                                                             in_min, in_max);
+			                                                                             in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state, min,
 			                                                                              end);
@@ -867,10 +866,10 @@ public:
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
 			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return sub_last - has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-								  sub_structure, sub_state, in_min, in_max);
+								  sub_structure, sub_state, in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(sub_structure, sub_state,
 			                                                                                 min, end);
-- 
2.43.0


From c88fe7dc6c62c483871dd1a34a029c6d5b7d87db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:41 +0000
Subject: [PATCH 09/25] fix: lower_bound_at of a shifted dimension searches the
 whole dimension

---
 include/noarr/structures/introspection/lower_bound_along.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 71dc4f3..466c776 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -595,7 +595,7 @@ public:
 			const auto sub_state = structure.sub_state(state);
 			const auto start = structure.start();
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state) - start) -
+					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state)) -
 			       start;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
-- 
2.43.0


From adde2e1c28ef50ad5ea910af7f5930fd551fdb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:41 +0000
Subject: [PATCH 10/25] fix: lower_bound_at of merged blocks is an index of the
 merged dimension

---
 include/noarr/structures/introspection/lower_bound_along.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 466c776..3ef5549 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -1373,11 +1373,12 @@ public:
 			const auto sub_structure = structure.sub_structure();
 			const auto sub_state = structure.sub_state(state);
 
+			const auto length = sub_structure.template length<DimMinor>(sub_state);
 			const auto major =
 				has_lower_bound_along<DimMajor, sub_structure_t, sub_state_t>::lower_bound_at(sub_structure, sub_state);
 			const auto minor =
 				has_lower_bound_along<DimMinor, sub_structure_t, sub_state_t>::lower_bound_at(sub_structure, sub_state);
-			return major + minor;
+			return major * length + minor;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state));
@@ -1397,7 +1398,7 @@ public:
 				sub_structure, sub_state, min / length, end / length);
 			const auto minor = has_lower_bound_along<DimMinor, sub_structure_t, sub_state_t>::lower_bound_at(
 				sub_structure, sub_state, min % length, end % length);
-			return major + minor;
+			return major * length + minor;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state), min, end);
-- 
2.43.0


From ac1f5761134c99f9f5e3fd6cf4ad8d33cf879a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 11/25] fix: lower_bound_at of a major block dimension compiles
 and is a block index

---
 .../introspection/lower_bound_along.hpp       | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 3ef5549..2a853e5 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -971,12 +971,10 @@ public:
 				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
 				structure.template length<DimMinor>(state));
 		} else if constexpr (QDim == DimMajor) {
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
-			} else {
-				return structure.template length<DimMinor>(state) - make_const<1>();
-			}
+			// the block that contains the lowest element
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+					   structure.sub_structure(), structure.sub_state(state)) /
+			       structure.template length<DimMinor>(state);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
 				structure.sub_structure(), structure.sub_state(state));
@@ -1115,12 +1113,10 @@ public:
 				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
 				structure.template length<DimMinor>(state));
 		} else if constexpr (QDim == DimMajor) {
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
-			} else {
-				return structure.template length<DimMinor>(state) - make_const<1>();
-			}
+			// the block that contains the lowest element
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+					   structure.sub_structure(), structure.sub_state(state)) /
+			       structure.template length<DimMinor>(state);
 		} else if constexpr (QDim == DimIsBorder) {
 			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
 					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
@@ -1273,12 +1269,10 @@ public:
 				structure.sub_structure(), structure.sub_state(state), make_const<0>(),
 				structure.template length<DimMinor>(state));
 		} else if constexpr (QDim == DimMajor) {
-			if (has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					structure.sub_structure(), structure.sub_state(state)) == make_const<0>()) {
-				return make_const<0>();
-			} else {
-				return structure.template length<DimMinor>(state) - make_const<1>();
-			}
+			// the block that contains the lowest element
+			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
+					   structure.sub_structure(), structure.sub_state(state)) /
+			       structure.template length<DimMinor>(state);
 		} else if constexpr (QDim == DimIsPresent) {
 			return make_const<0>();
 		} else {
-- 
2.43.0


From 3a642e77343de61b19d6cfa568b22afcaf3c9425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:42 +0000
Subject: [PATCH 12/25] fix: a dimension renamed away has no offset along it

---
 .../structures/introspection/offset_along.hpp      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/noarr/structures/introspection/offset_along.hpp b/include/noarr/structures/introspection/offset_along.hpp
index 5b7639e..031cb51 100644
--- a/include/noarr/structures/introspection/offset_along.hpp
+++ b/include/noarr/structures/introspection/offset_along.hpp
@@ -179,7 +179,11 @@ private:
 		helpers::rename_dim<QDim, typename Structure::external, typename Structure::internal>::dim;
 
 	static constexpr bool get_value() noexcept {
-		return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::value;
+		if constexpr (Structure::internal::template contains<QDim> && !Structure::external::template contains<QDim>) {
+			return false;
+		} else {
+			return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::value;
+		}
 	}
 
 public:
@@ -189,12 +193,8 @@ public:
 	static constexpr auto offset(Structure structure, State state) noexcept
 	requires value
 	{
-		if constexpr (Structure::internal::template contains<QDim> && !Structure::external::template contains<QDim>) {
-			return false;
-		} else {
-			return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::offset(structure.sub_structure(),
-			                                                                       structure.sub_state(state));
-		}
+		return has_offset_along<QDimNew, sub_structure_t, sub_state_t>::offset(structure.sub_structure(),
+		                                                                       structure.sub_state(state));
 	}
 };
 
-- 
2.43.0


From a50f42e06ccbfcf7109390d95d49c7859a9023ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:57 +0000
Subject: [PATCH 13/25] fix: bag: applying a proto-structure to a temporary bag
 moves the data

---
 include/noarr/structures/interop/bag.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/bag.hpp b/include/noarr/structures/interop/bag.hpp
index 61df9e5..ab6a970 100644
--- a/include/noarr/structures/interop/bag.hpp
+++ b/include/noarr/structures/interop/bag.hpp
@@ -245,7 +245,9 @@ public:
 	[[nodiscard("Returns a new bag")]]
 	friend constexpr auto operator^(bag_t &&s, ProtoStruct p) {
 		using new_structure_t = std::remove_cvref_t<decltype(s.structure() ^ p)>;
-		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p, std::move(std::move(s).template get<1>()));
+		// the contained data are only accessible as const; `s` itself is a (non-const) rvalue
+		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p,
+		                                         std::move(const_cast<data_t &>(s.template get<1>())));
 	}
 
 	template<IsProtoStruct ProtoStruct>
-- 
2.43.0


From 628998c4148382da9e85d509397f7ba56e5d2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:57 +0000
Subject: [PATCH 14/25] fix: tuple: alignment of a tuple with differently
 aligned fields compiles

---
 include/noarr/structures/structs/layouts.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/layouts.hpp b/include/noarr/structures/structs/layouts.hpp
index 4dc6a86..c50a987 100644
--- a/include/noarr/structures/structs/layouts.hpp
+++ b/include/noarr/structures/structs/layouts.hpp
@@ -188,7 +188,9 @@ private:
 	template<IsState State, std::size_t I, std::size_t... IS>
 	[[nodiscard]]
 	constexpr auto align_inner(std::index_sequence<I, IS...> /*is*/, State sub_state) const noexcept {
-		return std::max(sub_structure<I>().align(sub_state), align_inner(std::index_sequence<IS...>(), sub_state));
+		using first = decltype(sub_structure<I>().align(sub_state));
+		using rest = decltype(align_inner(std::index_sequence<IS...>(), sub_state));
+		return constexpr_arithmetic::make_const<std::max<std::size_t>(first::value, rest::value)>();
 	}
 };
 
-- 
2.43.0


From 1f17e7b3a8325ac297b182e5dead042ae0706404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:57 +0000
Subject: [PATCH 15/25] fix: cuda_striped: alignment compiles (misplaced
 parenthesis)

---
 include/noarr/structures/interop/cuda_striped.cuh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/interop/cuda_striped.cuh b/include/noarr/structures/interop/cuda_striped.cuh
index 7af3f9f..218cb60 100644
--- a/include/noarr/structures/interop/cuda_striped.cuh
+++ b/include/noarr/structures/interop/cuda_striped.cuh
@@ -138,8 +138,8 @@ public:
 	requires (has_size<State>())
 	[[nodiscard]]
 	constexpr auto align(State state) const noexcept {
-		using namespace constexpr_arithmetic;
-		return std::max(sub_structure().align(sub_state(state), make_const<BankWidth>()));
+		using sub_align = decltype(sub_structure().align(sub_state(state)));
+		return constexpr_arithmetic::make_const<std::max<std::size_t>(sub_align::value, BankWidth)>();
 	}
 
 	template<class Sub, IsState State>
-- 
2.43.0


From 8cf907ddbf6a59db4ea411c1312004202d584d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:22 +0000
Subject: [PATCH 16/25] fix: mangle_expr: keep the last digit of negative
 integers

---
 include/noarr/structures/extra/mangle.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 0a6b74a..e37b67e 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -178,6 +178,7 @@ struct mangle_expr_helpers {
 		} while (u /= 10);
 		if (neg) {
 			*--ptr = '-';
+			sz++;
 		}
 		out.append(ptr, sz);
 	}
-- 
2.43.0


From 7bd3d184fc8e21ed4b38099031c5d59699d75ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:21 +0000
Subject: [PATCH 17/25] fix: mangle: print static lengths that do not fit an
 int

---
 include/noarr/structures/extra/mangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index e37b67e..7aaf250 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -110,13 +110,13 @@ struct scalar_name<std::integral_constant<std::size_t, L>> {
 		integer_sequence_concat<std::integer_sequence<char, 's', 't', 'd', ':', ':', 'i', 'n', 't', 'e', 'g', 'r', 'a',
 	                                                  'l', '_', 'c', 'o', 'n', 's', 't', 'a', 'n', 't', '<'>,
 	                            typename scalar_name<std::size_t>::type, std::integer_sequence<char, ','>,
-	                            mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                            mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 template<std::size_t L>
 struct scalar_name<lit_t<L>> {
 	using type = integer_sequence_concat<std::integer_sequence<char, 'l', 'i', 't', '_', 't', '<'>,
-	                                     mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                                     mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 /**
-- 
2.43.0


From 44caf3629b2fafc6a4e94593c6213686b4362195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:36 +0000
Subject: [PATCH 18/25] fix: standard-parallel planner execution uses the free
 begin/end (planners have no such members)

---
 include/noarr/structures/interop/std_para.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/std_para.hpp b/include/noarr/structures/interop/std_para.hpp
index 1da5d63..af3f15a 100644
--- a/include/noarr/structures/interop/std_para.hpp
+++ b/include/noarr/structures/interop/std_para.hpp
@@ -27,7 +27,7 @@ constexpr planner_std_execute_t planner_std_execute() noexcept { return {}; }
 
 template<IsPlanner Planner>
 inline void operator|(const Planner &planner, planner_std_execute_t /*unused*/) {
-	std::for_each(std::execution::par, planner.begin(), planner.end(),
+	std::for_each(std::execution::par, begin(planner), end(planner),
 	              [](const auto &inner_planner) { inner_planner.execute(); });
 }
 
-- 
2.43.0


From a8bb9eb3d741b476afaed8d147e2050e78d0c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:14 +0000
Subject: [PATCH 19/25] fix: planner ranges have the splitting constructor that
 planner_tbb_execute needs

---
 include/noarr/structures/interop/planner_iter.hpp |  4 ++++
 include/noarr/structures/interop/tbb.hpp          | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/noarr/structures/interop/planner_iter.hpp b/include/noarr/structures/interop/planner_iter.hpp
index b6ad63e..ae19e6b 100644
--- a/include/noarr/structures/interop/planner_iter.hpp
+++ b/include/noarr/structures/interop/planner_iter.hpp
@@ -190,6 +190,10 @@ struct planner_range_t<Dim, union_t<Structs...>, Order, Ending> : flexible_conta
 	constexpr planner_range_t(const planner_t<union_t<Structs...>, Order, Ending> &planner, std::size_t length)
 		: base(static_cast<const base &>(planner)), begin_idx(0), end_idx(length) {}
 
+	// TBB splitting constructor
+	template<class Split>
+	constexpr planner_range_t(planner_range_t &, Split) noexcept; // defined in tbb.hpp
+
 	template<class NewOrder>
 	[[nodiscard("Returns a new planner")]]
 	constexpr auto order(NewOrder new_order) const noexcept {
diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index e0ed07e..f0fd295 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -27,6 +27,16 @@ constexpr traverser_range_t<Dim, Struct, Order>::traverser_range_t(traverser_ran
 	orig.end_idx = begin_idx;
 }
 
+// declared in planner_iter.hpp
+template<IsDim auto Dim, class... Structs, class Order, class Ending>
+template<class Split>
+constexpr planner_range_t<Dim, union_t<Structs...>, Order, Ending>::planner_range_t(planner_range_t &orig,
+                                                                                    Split /*unused*/) noexcept
+	: base(orig), begin_idx(orig.begin_idx + (orig.end_idx - orig.begin_idx) / 2), end_idx(orig.end_idx) {
+	static_assert(std::is_same_v<Split, tbb::split>, "Invalid constructor call");
+	orig.end_idx = begin_idx;
+}
+
 template<IsTraverser Traverser, class F>
 inline void tbb_for_each(const Traverser &t, const F &f) {
 	tbb::parallel_for(t.range(), [&f](const auto &subrange) { subrange.for_each(f); });
-- 
2.43.0


From b90fc7a8388babbf2a85354c45a1a91094fc22f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:23 +0000
Subject: [PATCH 20/25] fix: planner_omp_execute compiles for callbacks that
 are not assignable (clang)

---
 include/noarr/structures/interop/omp.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/interop/omp.hpp b/include/noarr/structures/interop/omp.hpp
index aae730b..8fa745f 100644
--- a/include/noarr/structures/interop/omp.hpp
+++ b/include/noarr/structures/interop/omp.hpp
@@ -1,6 +1,8 @@
 #ifndef NOARR_STRUCTURES_OMP_HPP
 #define NOARR_STRUCTURES_OMP_HPP
 
+#include <cstddef>
+
 #include "../extra/planner.hpp"
 #include "../extra/traverser.hpp"
 #include "../interop/planner_iter.hpp"
@@ -36,9 +38,12 @@ constexpr planner_omp_execute_t planner_omp_execute() noexcept { return {}; }
 
 template<IsPlanner Planner>
 inline void operator|(const Planner &planner, planner_omp_execute_t /*unused*/) {
+	// planner iterators are not assignable when a callback is not (e.g. a lambda with captures)
+	const auto planner_range = range(planner);
+	const auto size = planner_range.size();
 #pragma omp parallel for
-	for (auto inner_planner : planner) {
-		inner_planner.execute();
+	for (std::size_t i = 0; i < size; ++i) {
+		planner_range[i].execute();
 	}
 }
 
-- 
2.43.0


From ba78660017094a158d14c828c3f42545e5cbaafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 21/25] fix: tbb_reduce does not share the output when the
 order renamed or merged the outermost dimension

---
 include/noarr/structures/interop/tbb.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index f0fd295..df35cf4 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -4,6 +4,7 @@
 #include <cstdlib>
 
 #include <type_traits>
+#include <utility>
 
 #include <tbb/tbb.h>
 
@@ -55,7 +56,13 @@ inline void tbb_reduce(const Traverser &t, const FNeut &f_neut, const FAcc &f_ac
                        const OutStruct &out_struct, void *out_ptr) {
 	constexpr auto top_dim = helpers::traviter_top_dim<decltype(t.get_struct() ^ t.get_order())>;
 	using range_t = decltype(t.range());
-	if constexpr (OutStruct::signature::template all_accept<top_dim>) {
+	// the order may have renamed or merged the dimensions (then, top_dim is not the structures' dimension of that name)
+	using outer_state_t = std::remove_cvref_t<decltype(t.state())>;
+	using inner_state_t = std::remove_cvref_t<decltype(t.range()[0].state())>;
+	constexpr bool top_dim_preserved = std::is_same_v<
+		std::remove_cvref_t<decltype(std::declval<inner_state_t>().template remove<index_in<top_dim>>())>,
+		outer_state_t> && state_contains<inner_state_t, index_in<top_dim>>;
+	if constexpr (top_dim_preserved && OutStruct::signature::template all_accept<top_dim>) {
 		// parallel writes will go to different offsets => out_ptr may be shared
 		tbb::parallel_for(t.range(), [&f_acc, out_ptr](const range_t &subrange) {
 			subrange.for_each([f_acc, out_ptr](auto state) { f_acc(state, out_ptr); });
-- 
2.43.0


From 60c5e14534b41105d3ae4ce0932a7471d706fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:16 +0000
Subject: [PATCH 22/25] fix: the signature of a span with a static end stated
 the end as the length

---
 include/noarr/structures/structs/slice.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index fb6120b..b494542 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -386,7 +386,17 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<EndT>, RetSig>;
+		template<class S, class E>
+		struct subtract {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t S, std::size_t E>
+		struct subtract<std::integral_constant<std::size_t, S>, std::integral_constant<std::size_t, E>> {
+			using type = static_arg_length<E - S>;
+		};
+
+		using type = function_sig<Dim, typename subtract<StartT, EndT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
-- 
2.43.0


From d6b01d957a3272efb0a7684d1102cab9c0027cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:17 +0000
Subject: [PATCH 23/25] fix: the signature of a step with a static stride
 stated the stride as the length

---
 include/noarr/structures/structs/slice.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index b494542..d0c7b84 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -549,7 +549,18 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<StrideT>, RetSig>;
+		template<class L, class S, class D>
+		struct steps {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t L, std::size_t S, std::size_t D>
+		struct steps<static_arg_length<L>, std::integral_constant<std::size_t, S>,
+		             std::integral_constant<std::size_t, D>> {
+			using type = static_arg_length<(L + D - S - 1) / D>;
+		};
+
+		using type = function_sig<Dim, typename steps<ArgLength, StartT, StrideT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
-- 
2.43.0


From 77479591008c4d059293a28e64a8fc0ca04d6cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:49 +0000
Subject: [PATCH 24/25] fix: scalar_t/has_offset are SFINAE-friendly when a
 tuple index is missing

---
 include/noarr/structures/extra/struct_traits.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/noarr/structures/extra/struct_traits.hpp b/include/noarr/structures/extra/struct_traits.hpp
index b6dd600..8dfc126 100644
--- a/include/noarr/structures/extra/struct_traits.hpp
+++ b/include/noarr/structures/extra/struct_traits.hpp
@@ -50,23 +50,23 @@ struct is_cube {
 	};
 };
 
+// has no member `type` if the state does not select a scalar (e.g. a tuple index is missing)
 template<class T, IsState State>
-struct sig_get_scalar;
+struct sig_get_scalar {};
 
 template<IsDim auto Dim, class ArgLength, class RetSig, IsState State>
-struct sig_get_scalar<function_sig<Dim, ArgLength, RetSig>, State> {
-	using type = typename sig_get_scalar<RetSig, state_remove_t<State, index_in<Dim>, length_in<Dim>>>::type;
-};
+struct sig_get_scalar<function_sig<Dim, ArgLength, RetSig>, State>
+	: sig_get_scalar<RetSig, state_remove_t<State, index_in<Dim>, length_in<Dim>>> {};
 
 template<IsDim auto Dim, class... RetSigs, IsState State>
 requires (state_contains<State, index_in<Dim>>)
-struct sig_get_scalar<dep_function_sig<Dim, RetSigs...>, State> {
+struct sig_get_scalar<dep_function_sig<Dim, RetSigs...>, State>
+	: sig_get_scalar<
+		  typename dep_function_sig<Dim, RetSigs...>::template ret_sig<state_get_t<State, index_in<Dim>>::value>,
+		  state_remove_t<State, index_in<Dim>, length_in<Dim>>> {
 	static_assert(
 		requires { state_get_t<State, index_in<Dim>>::value; },
 		"Tuple index must be set statically, wrap it in lit<> (e.g. replace 42 with lit<42>)");
-	using type = typename sig_get_scalar<
-		typename dep_function_sig<Dim, RetSigs...>::template ret_sig<state_get_t<State, index_in<Dim>>::value>,
-		state_remove_t<State, index_in<Dim>, length_in<Dim>>>::type;
 };
 
 template<class ValueType, IsState State>
-- 
2.43.0


From 0c9ee7d7a9f568b915deb0323e59d865f605a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:49 +0000
Subject: [PATCH 25/25] fix: into_blocks_dynamic: a state with only the major
 length over an unknown length is not a hard error

---
 include/noarr/structures/structs/blocks.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/noarr/structures/structs/blocks.hpp b/include/noarr/structures/structs/blocks.hpp
index a960de7..70ab06f 100644
--- a/include/noarr/structures/structs/blocks.hpp
+++ b/include/noarr/structures/structs/blocks.hpp
@@ -293,6 +293,8 @@ private:
 				} else {
 					return clean_state(state);
 				}
+			} else if constexpr (!sub_structure_t::template has_length<Dim, clean_state_t<State>>()) {
+				return clean_state(state);
 			} else if constexpr (state_contains<State, length_in<DimMajor>>) {
 				if constexpr (have_indices) {
 					const auto cs = clean_state(state);
-- 
2.43.0

