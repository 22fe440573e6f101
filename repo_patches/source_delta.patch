From b20a7ae5c016fc46957fe018f08ca8c591336131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 01/81] fix: conversions, views and writes of rank 0 block
 tensors

torch throws on an empty index list, so to_dense, from_basic_tensor, basic_create_view
and basic_index_put_ were all unusable on scalar block tensors.
---
 sources/btensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 186e177..5c1f503 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -647,6 +647,8 @@ std::tuple<std::vector<int64_t>, std::vector<torch::indexing::TensorIndex>> to_b
 		++elementit;
 		++section_dimit;
 	}
+	if (element.empty()) // torch refuses empty index lists: a scalar's only element is selected by the ellipsis.
+		element.emplace_back(torch::indexing::Ellipsis);
 	return std::make_tuple(std::move(blocks), std::move(element));
 }
 
@@ -2486,6 +2488,8 @@ std::vector<torch::indexing::TensorIndex> btensor::full_slice(const btensor &ten
 		// fmt::print("slice: {} {}\n\n",ori,slice_end);
 		out[i] = torch::indexing::Slice(ori, slice_end);
 	}
+	if (out.empty()) // torch refuses empty index lists: a scalar's only element is selected by the ellipsis.
+		out.emplace_back(torch::indexing::Ellipsis);
 	return out;
 }
 torch::Tensor btensor::to_dense() const
-- 
2.43.0


From 2089bb6d2e6ac641380e97c4bd932cd216bc877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 02/81] fix: basic_create_view ignored the fixed dimensions
 after the last kept one

The block filter stopped once the output index was complete, so blocks outside of the
view could be kept in place of those it contains.
---
 sources/btensor.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 5c1f503..8f8f07e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -677,13 +677,15 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		bool keep = true;
 		auto out_it = out_index.begin();
 		auto filter_it = filter.begin();
-		for (auto index_it = index_in.begin(); index_it != index_in.end() and out_it != out_index.end() and keep;
-		     ++index_it, ++filter_it)
+		for (auto index_it = index_in.begin(); index_it != index_in.end() and keep; ++index_it, ++filter_it)
 		{
-			*out_it = *index_it;
 			auto sliced = *filter_it == -1;
 			keep &= sliced or *index_it == *filter_it;
-			out_it += sliced;
+			if (sliced)
+			{
+				*out_it = *index_it;
+				++out_it;
+			}
 		}
 		return std::make_tuple(keep, out_index);
 	};
-- 
2.43.0


From 566c469f35c96ce29914c2dfaa873ca8959ac927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 03/81] fix: basic_index_put_ left stale elements where the
 written value has no block

---
 sources/btensor.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8f8f07e..74678e7 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -728,6 +728,22 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		}
 		return out;
 	};
+	// the region written to must be zero where value has no block.
+	for (auto &index_block : this->blocks_list)
+	{
+		const auto &index = std::get<0>(index_block);
+		index_list value_index;
+		bool in_region = true;
+		for (size_t i = 0; i < blocks.size(); ++i)
+		{
+			if (blocks[i] == -1)
+				value_index.push_back(index[i]);
+			else
+				in_region &= blocks[i] == index[i];
+		}
+		if (in_region and !value.blocks_list.contains(value_index))
+			std::get<1>(index_block).index_put_(element, 0);
+	}
 	for (const auto &index_block : value)
 	{
 		const auto &index = std::get<0>(index_block);
-- 
2.43.0


From e69b4f503b5c653562e367634a133ef83c3ffd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 04/81] fix: btensor::add(btensor&&) modified its left operand
 and crashed on empty tensors

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 74678e7..1c815cb 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2711,6 +2711,10 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
+	for (auto &a : out)
+	{
+		std::get<1>(a) = std::get<1>(a).clone();
+	}
 	out.blocks_list.merge(
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
 	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
@@ -2728,7 +2732,8 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
-	out._options = std::get<1>(*out.begin()).options();
+	if (out.begin() != out.end())
+		out._options = std::get<1>(*out.begin()).options();
 	return out;
 }
 /*!
-- 
2.43.0


From 51f916b6c34771561af9fb068881dad215cb55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 05/81] fix: sum of a tensor with a non-neutral selection rule
 broke the conservation rule

---
 sources/btensor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1c815cb..6d42172 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1518,7 +1518,8 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
-	auto out = btensor({}, selection_rule.value, this->options());
+	// only a neutral scalar can have a value.
+	auto out = btensor({}, selection_rule.value.neutral(), this->options());
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
 	torch::Tensor out_val = torch::zeros({}, options());
 	for (auto &a : list)
-- 
2.43.0


From 62d9ac7da0b6905b70162718ae4f027fce72057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 06/81] fix: cval_shift moved the selection rule in the wrong
 direction

Every block gains the shift, so the selection rule must as well for the blocks to stay allowed.
---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 6d42172..8a94f8c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2201,7 +2201,7 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
 	shift_impl(shift, dim);
-	selection_rule.value *= shift.inverse();
+	selection_rule.value *= shift;
 	return *this;
 }
 
-- 
2.43.0


From 52996ced8cfbd2705fb6bc250b4386645c61c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 07/81] fix: btensor::block accepted block indices of the wrong
 length

The exception was created but never thrown.
---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8a94f8c..c5ddd05 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -386,7 +386,7 @@ torch::Tensor &btensor::block(const index_list &block_index) // create the block
                                                              // freestanding sparrse tensor of zeros.
 {
 	if (block_index.size() != rank)
-		std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+		throw std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
 	if (!block_conservation_rule_test(block_index))
 	{
 		auto message = fmt::format("block index {} not allowed by selection rule. {} != {}", block_index,
-- 
2.43.0


From be26a9cc9c1817708acc9375bd574deee6c9eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 08/81] fix: additions and allclose accepted tensors of
 different rank

Two tensors can have the same list of sections, divided differently among their dimensions.
---
 sources/btensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c5ddd05..4e0e48b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2243,7 +2243,8 @@ void btensor::shift_impl(any_quantity_cref shift, int64_t dim)
 
 bool btensor::test_same_shape(const btensor &a, const btensor &b)
 {
-	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
+	if (!(a.sections_by_dim == b.sections_by_dim) or !(a.c_vals == b.c_vals) or
+	    !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
 		return false;
 	return true;
 }
@@ -2254,7 +2255,7 @@ void btensor::add_tensor_check(const btensor &a, const btensor &b)
 		throw non_matching_cvals("The conserved quantities of the tensors must be a perfect match");
 	if (!(a.selection_rule == b.selection_rule))
 		throw bad_selection_rule("The selection rules of the tensors must be the same");
-	if (!(a.sections_sizes == b.sections_sizes))
+	if (!(a.sections_by_dim == b.sections_by_dim) or !(a.sections_sizes == b.sections_sizes))
 		throw non_matching_sizes("The blocks of the tensors must have the same dimensions");
 }
 
-- 
2.43.0


From 59afb11f891bd2962d4e5ddafdc4cdac89b9aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 09/81] fix: contractions check the section sizes, and the
 dimensions before using them

Mismatched section sizes were accepted when no pair of blocks happened to meet, and
out of range dimensions were dereferenced before their validity was verified.
---
 sources/btensor.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 4e0e48b..e854b6d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -826,6 +826,17 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 			return false;
 		}
 		ok_CR = std::distance(std::get<0>(q1), std::get<1>(q1)) == std::distance(std::get<0>(q2), std::get<1>(q2));
+		{
+			auto [size1, size1_end] = in1.section_sizes(dims1[i]);
+			auto [size2, size2_end] = in2.section_sizes(dims2[i]);
+			ok_CR = ok_CR and std::equal(size1, size1_end, size2, size2_end);
+		}
+		if constexpr (Throws)
+		{
+			constexpr auto mismatch_sizes = "contracted dimensions need to match, but the sections of dim {} of the "
+			                                "left tensor and dim {} of the right tensor have different sizes";
+			TORCH_CHECK(ok_CR, fmt::format(mismatch_sizes, dims1[i], dims2[i]));
+		}
 		auto neut = in1.selection_rule->neutral();
 		for (auto [it1, it2] = std::make_tuple(std::get<0>(q1), std::get<0>(q2)); it1 != std::get<1>(q1) and ok_CR;
 		     ++it1, ++it2)
@@ -865,9 +876,10 @@ std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>> com
 	TORCH_CHECK(input1.selection_rule->get().same_type(input2.selection_rule->get()),
 	            "the two tensors have different type of conserved quantities");
 
-	btensor::check_product_compat<true>(input1, input2, dims1, dims2);
+	// also checks that the dimensions are in range and unique
 	auto cdims1 = at::dim_list_to_bitset(dims1, input1.dim());
 	auto cdims2 = at::dim_list_to_bitset(dims2, input2.dim());
+	btensor::check_product_compat<true>(input1, input2, dims1, dims2);
 	std::vector<int64_t> p1, p2,
 	    out_section_by_dim; // p1, p2: input permutations, out_section_by_dim: sizes of the result
 	p1.reserve(input1.dim());
-- 
2.43.0


From 64b3db32a442d887c53c172ac197875e661884b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 10/81] fix: from_basic_tensor rejects tensors of the wrong
 size and doesn't alias its input

---
 sources/btensor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e854b6d..05bd860 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2542,6 +2542,8 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 {
 	if (out.dim() != values.dim())
 		throw std::invalid_argument("input arguments have incompatible rank!");
+	if (values.sizes() != torch::IntArrayRef(out.sizes()))
+		throw std::invalid_argument("input arguments have incompatible sizes!");
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	// fmt::print("construction of btensor from full basic tensor\n==============\n");
@@ -2557,7 +2559,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 			                                2, {}, false, {}) > cutoff)
 			        .item()
 			        .toBool()) // only insert the block if it's a significative quantity.
-				out.block(index) = block;
+				out.block(index) = block.clone(); // block is a view on the input
 			// fmt::print("\tindex {}\n\tSlice {}\n\t block {}\n================\n",index,S,out.block(index));
 		}
 		out.block_increment(index);
-- 
2.43.0


From fbaeebd4d654498ecaa04dd5640c488fbb41fe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 11/81] fix: eye(shape) ignored its options and read the shape
 before checking it

---
 sources/btensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 05bd860..9e0f29b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2468,12 +2468,12 @@ btensor randint_like(int64_t low, int64_t high, const btensor &tens, c10::Tensor
 }
 btensor eye(const btensor::vec_list_t &shape_n, c10::TensorOptions opt)
 {
-	auto shape = btensor(shape_n, std::get<1>(shape_n[0][0]).neutral(), opt);
-	if (shape.dim() > 2)
+	if (shape_n.size() != 1 and shape_n.size() != 2)
 		throw std::invalid_argument("the input shape must be 1 or 2 dimensionnal");
+	auto shape = btensor(shape_n, std::get<1>(shape_n[0][0]).neutral(), opt);
 	if (shape.dim() == 1)
 		shape = shape_from(shape, shape.conj());
-	return eye_like(shape);
+	return eye_like(shape, opt);
 }
 btensor eye_like(const btensor &shape, c10::TensorOptions opt)
 {
-- 
2.43.0


From 166acbe63f946cf9a1a4989240a4a1615f2a8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 12/81] fix: documentation of cval_shift

---
 include/blockTensor/btensor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 6686698..6c09112 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -676,7 +676,7 @@ class btensor
 	 */
 	btensor &inverse_cvals_();
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
 	 * conservation rule.
 	 *
 	 * @param shift shift to apply
@@ -684,7 +684,7 @@ class btensor
 	 */
 	btensor cval_shift(any_quantity_cref shift, int64_t dim) const;
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
 	 * conservation rule.
 	 *
 	 * @param shift shift to apply
@@ -1465,7 +1465,7 @@ inline torch::Tensor inverse_cvals(torch::Tensor &&tens) { return std::move(tens
 inline btensor &inverse_cvals_(btensor &tens) { return tens.inverse_cvals_(); }
 inline torch::Tensor &inverse_cvals_(torch::Tensor &tens) { return tens; }
 /**
- * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
+ * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
  * conservation rule.
  *
  * @param shift shift to apply
-- 
2.43.0


From 350f1e7d2da6b3e0be3011237ad7c88359bcc588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 13/81] fix: squeeze refused tensors whose unit dimensions have
 a non-neutral charge

squeeze(dim) moves the charge to the selection rule, do the same when squeezing all the dimensions.
---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 9e0f29b..17843e3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2172,7 +2172,7 @@ btensor &btensor::squeeze_()
 	{
 		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);
 	}
-	*this = reshape_as(shape_from(res));
+	*this = basic_create_view(res);
 	return *this;
 }
 btensor btensor::squeeze() const
-- 
2.43.0


From 062b0ef1615edcca812dcc64095bffea39b9d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 14/81] fix: broadcasting operations accepted dimensions with
 different section sizes

Only the number of sections was verified.
---
 sources/btensor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 17843e3..1b53a95 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1033,7 +1033,13 @@ struct mul_helpers
 				constexpr auto message = "The section and tensor size of tensor a (section size {},tensor size {}) "
 				                         "must match the section size and tensor size"
 				                         "of tensor b (section size {}, tensor size {}) at non-singleton dimension {}";
-				if (not(*it) and *smaller_sec != *larger_sec)
+				bool same_sections = *smaller_sec == *larger_sec;
+				for (size_t s = 0; s < *smaller_sec and same_sections; ++s)
+				{
+					same_sections = smaller_tensor.section_size(smaller_rank - n, s) ==
+					                larger_tensor.section_size(larger_rank - n, s);
+				}
+				if (not(*it) and not same_sections)
 				{
 					if (this_is_large)
 					{
-- 
2.43.0


From 0bda85dd04f6980838cd80ee43b48acdfec257bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 15/81] fix: broadcasting between a unit dimension and a larger
 dimension with a single section

The sizes of the output were taken from whichever tensor, they must come from the one which isn't of size one.
---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1b53a95..89970ea 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1075,14 +1075,14 @@ struct mul_helpers
 				--it;
 				--larger_sec;
 				--smaller_sec;
-				if (*larger_sec > *smaller_sec) // one of them is one
+				if (*it == 1) // the smaller tensor is broadcasted along this dimension
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    larger_tensor.section_sizes_cqtts(larger_rank - n);
 					std::tie(short_cval_start, short_cval_end) =
 					    smaller_tensor.section_conserved_qtt_range(smaller_rank - n);
 				}
-				else // or they are equal
+				else // the larger tensor is broadcasted, or they are equal
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    smaller_tensor.section_sizes_cqtts(smaller_rank - n);
-- 
2.43.0


From 4cb8bb0cbb462fbe1ef88290f785f6d73029db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 16/81] fix: in place broadcasting operations on a tensor of
 smaller rank than the other operand

The block index was written out of bounds and the blocks were modified more than once.
---
 sources/btensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 89970ea..babf5af 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1250,6 +1250,9 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 	// The larger and smaller identification buisiness can be mostly illiminated: the output MUST be the larger one in
 	// rank for the inplace case. This is a bit of a silly decision on torch's part, since it allow reallocation if the
 	// tensor has a large enough rank.
+	if (rank < other.rank)
+		throw std::invalid_argument(
+		    fmt::format("in place operation on a tensor of rank {} with an operand of larger rank {}", rank, other.rank));
 
 	const auto &smaller_rank = std::min(rank, other.rank);
 	const auto &larger_rank = std::max(rank, other.rank);
-- 
2.43.0


From 243b99a8062697dba8359579a93063164834e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 17/81] fix: pow_(btensor) used the in place and out of place
 operations in each other's stead

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index babf5af..ea3728d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1786,8 +1786,8 @@ btensor btensor::pow(const btensor &exponent) const
 btensor &btensor::pow_(const btensor &exponent)
 {
 	return broadcast_operation_(
-	    exponent, [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); },
-	    [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); });
+	    exponent, [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); },
+	    [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); });
 }
 btensor btensor::mul(const btensor &other) const
 {
-- 
2.43.0


From 117558ce855bade7dad76fc06462993fee029245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 18/81] fix: tensordot with a rank 0 operand never terminated

---
 sources/btensor.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ea3728d..49d728e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2090,6 +2090,13 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 	{ // launch the contractions.
 		auto this_col_start = t1.begin();
 		auto less = t1.value_comp();
+		auto col_end = [&next_index, &less](const auto &col_start, auto &blocks)
+		{
+			// a rank 0 tensor has a single block, it is a column on its own.
+			return std::get<0>(*col_start).empty()
+			           ? blocks.end()
+			           : std::lower_bound(col_start, blocks.end(), next_index(col_start), less);
+		};
 		btensor::block_list_t::content_t out_list(std::max(
 		    std::reduce(out_btens.sections_by_dim.begin(), out_btens.sections_by_dim.end(), 1ul, std::multiplies()),
 		    1ul)); // always make room for atleast one tensor. for scalar case.
@@ -2101,12 +2108,11 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		{
 			// assert(out_list_it != out_list.end());
 			auto other_curr_block = t2.begin();
-			auto this_col_end = std::lower_bound(this_col_start, t1.end(), next_index(this_col_start),
-			                                     less); // also the next column start if it's not the end.
+			auto this_col_end = col_end(this_col_start, t1); // also the next column start if it's not the end.
 			while (other_curr_block != t2.end() and out_list_it != out_list.end()) // loop over all the columns of other
 			{
 				auto this_curr_block = this_col_start;
-				auto other_col_end = std::lower_bound(other_curr_block, t2.end(), next_index(other_curr_block), less);
+				auto other_col_end = col_end(other_curr_block, t2);
 				cpt_output_block(this_curr_block, other_curr_block); // side effect: update out_block_index
 				// if (!out_btens.block_conservation_rule_test(out_block_index))// not worth it with 50 site heisenber
 				// model dmrg
-- 
2.43.0


From 71b4c94884079ac533a59d8e1ffe9f07f4cd45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 19/81] fix: scalar divided by a btensor wrote past the end of
 an empty block list

---
 sources/btensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 49d728e..bbaae7c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3218,8 +3218,10 @@ btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
 	auto out = quantit::sparse_zeros_like(B);
 	out.reserve_space_(std::distance(B.begin(), B.end()));
-	std::transform(B.begin(), B.end(), out.begin(),
-	               [&A](const auto &in) { return std::make_pair(in.first, A / in.second); });
+	for (const auto &in : B)
+	{
+		out.block(in.first) = A / in.second;
+	}
 	return out;
 }
 /**
-- 
2.43.0


From 66f8f402af1f228d6f1ba8e635d7c6484d42de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 20/81] fix: basic_index_put_ read past the end of the block
 index of the written value

---
 sources/btensor.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index bbaae7c..fd5b486 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -722,9 +722,11 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		auto itv = value_index.begin();
 		for (auto ito = out.begin(); ito != out.end(); ++ito)
 		{
-			bool isNegative1 = (*ito) == -1;
-			*ito = (*itv) * isNegative1 + (!isNegative1) * (*ito);
-			itv += isNegative1;
+			if (*ito == -1)
+			{
+				*ito = *itv;
+				++itv;
+			}
 		}
 		return out;
 	};
-- 
2.43.0


From 896433c3430bda08c8b0a56c89c85c69de06715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 21/81] fix: flat_map::merge applied the no collision operation
 to elements already present

When the source is empty, or its smallest key larger than that of this, the elements before the inserted
ones were modified: a.sub_(b) changed the sign of the blocks of a absent from b.
---
 include/blockTensor/flat_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 9f1e87e..b94eaaa 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -421,7 +421,9 @@ class flat_map
 		    lastmfirst == 0 or
 		    movembegin == lastmfirst); // we've copied everything, or we still have some stuff to copy and the room necessary
 		std::copy_backward(first, last, move_to_end);
-		std::for_each(begin(), move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
+		// only the elements copied from the input, what comes before them was already in this.
+		std::for_each(move_to_end - lastmfirst, move_to_end,
+		              [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
 	}
 
 	template <class M>
-- 
2.43.0


From 18caaff13bec08cfad1ef33dd285a96662563589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 22/81] fix: additions of block tensors of different types

The sum of a real and a complex tensor was refused if they share a block, and had blocks of mixed
types otherwise.
---
 sources/btensor.cpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index fd5b486..6bdf4e7 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2718,6 +2718,23 @@ size_t get_weakcount(const torch::Tensor &tens)
 
 // end of nasty shenanigans
 
+// give a common type to all the blocks, and the options, of the result of an operation on tensors of different types.
+static void unify_block_types(btensor::block_list_t &blocks, c10::TensorOptions &options)
+{
+	if (blocks.begin() == blocks.end())
+		return;
+	auto type = std::get<1>(*blocks.begin()).scalar_type();
+	for (const auto &a : blocks)
+	{
+		type = at::promote_types(type, std::get<1>(a).scalar_type());
+	}
+	for (auto &a : blocks)
+	{
+		std::get<1>(a) = std::get<1>(a).to(type); // does nothing if it's already of that type.
+	}
+	options = std::get<1>(*blocks.begin()).options();
+}
+
 btensor btensor::add(const btensor &other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
@@ -2728,12 +2745,12 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
 	}
 	out.blocks_list.merge(
 	    other.blocks_list,
-	    // collision : do an addition in place
-	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
+	    // collision : do the addition out of place, the two blocks could have different types
+	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a = a.add(b, alpha); },
 	    // no collision, multiply with the constant and make an independent copy
 	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
-	if (out.begin() != out.end())
-		out._options = std::get<1>(*out.begin()).options();
+	out._options = out._options.dtype(promote_types(options().dtype(), other.options().dtype()));
+	unify_block_types(out.blocks_list, out._options);
 	return out;
 }
 /*!
@@ -2752,7 +2769,7 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
 	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
 	                       // change the cost of the operations. collision
-	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
+	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a = a.add(b, alpha); },
 	    // no collision
 	    [&alpha](torch::Tensor &x)
 	    {
@@ -2765,8 +2782,8 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
-	if (out.begin() != out.end())
-		out._options = std::get<1>(*out.begin()).options();
+	out._options = out._options.dtype(promote_types(options().dtype(), other.options().dtype()));
+	unify_block_types(out.blocks_list, out._options);
 	return out;
 }
 /*!
@@ -2785,6 +2802,7 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 	this->blocks_list.merge(
 	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
+	unify_block_types(blocks_list, _options);
 	return *this;
 }
 /**
@@ -2808,6 +2826,7 @@ btensor &btensor::add_(btensor &&other, Scalar alpha)
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
+	unify_block_types(blocks_list, _options);
 	return *this;
 }
 /**
-- 
2.43.0


From 6cdec0ba994b58254474a70874cc04f194411149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 23/81] fix: tensordot of a real and a complex block tensor was
 refused

---
 sources/btensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 6bdf4e7..6af4514 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2034,6 +2034,12 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		std::copy(p2.begin() + dim_l, p2.end(), p2_prime.begin());
 		// fmt::print("{:-^80}\n", "permute right tensor");
 		auto _t2 = permute_bl(other.blocks_list, p2_prime, p2, dim_l);
+		if (options().dtype() != other.options().dtype())
+		{ // torch::mm requires operands of the same type.
+			for (auto *t : {&_t1, &_t2})
+				for (auto &block : *t)
+					std::get<1>(block) = std::get<1>(block).to(out_scalar_type);
+		}
 		btensor out(out_section_by_dim, out_cvals, out_section_sizes, std::move(out_sel_rule),
 		            this->options().dtype(out_scalar_type));
 		return std::make_tuple(std::move(_t1), std::move(_t2), std::move(out));
-- 
2.43.0


From 6377e04b753f7fadfea2edf4d86c839bea757dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:28 +0000
Subject: [PATCH 24/81] fix: bmm of rank 2 tensors read the sizes of a batch
 dimension which doesn't exist

---
 sources/btensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 6af4514..90340a4 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1180,6 +1180,7 @@ struct mul_helpers
 					                *a_sbd, *b_sbd, i));
 			}
 		}
+		if (a.rank > 2) // there are no batch dimensions to read otherwise
 		{ // check for compatible section sizes in batch dimensions
 			auto [a_start, a_end] = a.section_sizes(a.rank - 3);
 			auto [b_start, b_end] = b.section_sizes(b.rank - 3);
-- 
2.43.0


From a1df70e779a69a335256400daa098dedf6f27050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 25/81] fix: btensor::any stayed false when only blocks after
 the first hold non-zero elements

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 90340a4..e424a5f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3189,12 +3189,12 @@ torch::Tensor btensor::any() const
 {
 	auto it = this->begin();
 	if (it == this->end())
-		return torch::Tensor();
+		return torch::zeros({}, torch::kBool);
 	auto out = std::get<1>(*it).any();
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
 	{
-		out &= std::get<1>(*it).any();
+		out |= std::get<1>(*it).any();
 		++it;
 	}
 	return out;
-- 
2.43.0


From 5993a4337d98e731f5be3224e0eb7634b312cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 26/81] fix: C<N> built from a negative multiple of N was not
 the neutral element

---
 include/Conserved/quantity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 76ed977..cecb905 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -93,7 +93,7 @@ class C
 	 *
 	 *
 	 */
-	constexpr C(int16_t _val) noexcept : val(  (_val != -N)*(_val < 0) * N + (_val % N) )
+	constexpr C(int16_t _val) noexcept : val((_val % N < 0) * N + (_val % N))
 	{
 		/*
 		 * A quick explanation of the init line for val:
-- 
2.43.0


From 86d1423047b94d839b94f4c50db9d263f8c3ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 27/81] fix: combining charges of C<N> overflowed for N larger
 than 2^15

---
 include/Conserved/quantity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index cecb905..6f6c979 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -119,8 +119,8 @@ class C
 
 	constexpr C &op(C other, bool cond) noexcept
 	{
-		val += cond * other.val;
-		val -= (val >= N) * N;
+		uint32_t sum = uint32_t(val) + cond * other.val; // doesn't fit 16 bits when N is larger than 2^15
+		val = static_cast<uint16_t>(sum - (sum >= N) * N);
 		return *this;
 	}
 
-- 
2.43.0


From 0eaa5b02e2c32adc10e6f91605c3749b868dd948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 28/81] fix: copy assignment of any_quantity refused to change
 the underlying type

---
 include/Conserved/Composite/cquantity.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/cquantity.h b/include/Conserved/Composite/cquantity.h
index 47cb85e..23ff051 100644
--- a/include/Conserved/Composite/cquantity.h
+++ b/include/Conserved/Composite/cquantity.h
@@ -239,7 +239,10 @@ inline any_quantity any_quantity::inverse() &&
 }
 inline any_quantity_ref any_quantity::operator=(const any_quantity &other)
 {
-	*impl = *other.impl;
+	if (impl and impl->same_type(*other.impl))
+		*impl = *other.impl;
+	else
+		impl = other.impl->clone();
 	return *this;
 }
 inline void any_quantity::swap(any_quantity_ref other) { impl->swap(other); }
-- 
2.43.0


From fe0de298e550577681ccaecdec7e85ad913b7fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 29/81] fix: an uninitialized any_quantity_vector could not be
 copied, compared, measured or iterated

---
 include/Conserved/Composite/quantity_vector.h | 20 +++++++++++--------
 .../Composite/quantity_vector_impl.h          |  8 +++++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 9fa4640..799c76c 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -42,16 +42,16 @@ public:
 
 	any_quantity_vector(std::unique_ptr<vquantity_vector>&& _ptr) : ptr(std::move(_ptr)) {}
 	any_quantity_vector() = default;
-	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr->clone()) {}
+	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr ? other.ptr->clone() : nullptr) {}
 	any_quantity_vector(any_quantity_vector&& other) : ptr(std::move(other.ptr)) {}
 	any_quantity_vector(size_t cnt, any_quantity_cref val) : ptr(val.make_vector(cnt)) {}
 	/**
 	 * @brief Construct a new any_quantity vector object from an initializer list of any_quantity
 	 * @param list all the any_quantity must have the same concrete type, or an exception will be raised
 	 */
-	any_quantity_vector(std::initializer_list<any_quantity> list) : ptr(list.begin()->get().make_vector(0))
+	any_quantity_vector(std::initializer_list<any_quantity> list) : ptr(list.size() ? list.begin()->get().make_vector(0) : nullptr)
 	{
-		ptr->reserve(list.end() - list.begin());
+		reserve(list.end() - list.begin());
 		for (const_reference a : list)
 		{
 			push_back(a);
@@ -76,7 +76,9 @@ public:
 
 	bool operator==(const any_quantity_vector& other) const
 	{
-		return ptr and *ptr == *(other.ptr);
+		if (ptr and other.ptr)
+			return *ptr == *(other.ptr);
+		return empty() and other.empty();
 	}
 	bool operator!=(const any_quantity_vector& other) const
 	{
@@ -85,6 +87,7 @@ public:
 
 	reference operator[](size_t n)
 	{
+		if (not ptr) throw std::runtime_error( fmt::format("{} cannot be called with unitialized any_quantity_vector.",__func__ ) );
 		return any_quantity_ref((*ptr)[n]);
 	}
 	const_reference operator[](size_t n) const
@@ -137,23 +140,24 @@ public:
 	// capacity
 	[[nodiscard]] bool empty() const
 	{
-		return ptr->empty();
+		return not ptr or ptr->empty();
 	}
 	[[nodiscard]] size_t size() const
 	{
-		return ptr->size();
+		return ptr ? ptr->size() : 0;
 	}
 	[[nodiscard]] size_t max_size() const
 	{
-		return ptr->max_size();
+		return ptr ? ptr->max_size() : 0;
 	}
 	void reserve(size_t n)
 	{
+		if (ptr)
 		ptr->reserve(n);
 	}
 	[[nodiscard]] size_t capacity() const
 	{
-		return ptr->capacity();
+		return ptr ? ptr->capacity() : 0;
 	}
 	void shrink_to_fit()
 	{
diff --git a/include/Conserved/Composite/quantity_vector_impl.h b/include/Conserved/Composite/quantity_vector_impl.h
index 35dda66..694037d 100644
--- a/include/Conserved/Composite/quantity_vector_impl.h
+++ b/include/Conserved/Composite/quantity_vector_impl.h
@@ -130,7 +130,13 @@ struct cgroup_iterator
 	                                                       any_quantity, any_quantity_ref, vquantity *, std::ptrdiff_t>;
 	any_quantity_ref operator*() const { return *it; }
 	vquantity *operator->() const { return it; }
-	base_type::difference_type operator-(cgroup_iterator rhs) { return ar->ptr_diff(it, rhs.it); }
+	base_type::difference_type operator-(cgroup_iterator rhs)
+	{
+		if (ar)
+			return ar->ptr_diff(it, rhs.it);
+		else
+			return 0;
+	}
 	cgroup_iterator &operator+=(base_type::difference_type n)
 	{
 		it = ar->ptr_add(it, n);
-- 
2.43.0


From cd8dcc28c449cd104ab83087c65e444906779317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 30/81] fix: any_quantity_vector could not be built from a
 quantity_vector

---
 include/Conserved/Composite/quantity_vector.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 799c76c..d4a7596 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -61,11 +61,10 @@ public:
 	template <class Conc_cgroup, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
 	any_quantity_vector(std::initializer_list<Conc_cgroup> list) : ptr(std::make_unique<quantity_vector<Conc_cgroup>>(list)) {}
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
-	any_quantity_vector(const quantity_vector<Conc_cgroup, Allocator>& other) : ptr(other.clone()) {}
+	any_quantity_vector(const quantity_vector<Conc_cgroup, Allocator>& other) : any_quantity_vector(static_cast<const vquantity_vector&>(other)) {}
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
-	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>())
+	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>(std::move(other)))
 	{
-		*ptr = std::move(other);
 	}
 
 	any_quantity_vector& operator=(any_quantity_vector other)
-- 
2.43.0


From 6b9806cf4c86da6474736d97a2d443a0b5b0c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 31/81] fix: flat_map: a hint before the insertion point broke
 the ordering of the keys

---
 include/blockTensor/flat_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index b94eaaa..6a28bde 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -513,10 +513,10 @@ class flat_map
 		value_type val(std::forward<Args>(args)...);
 		bool success = false;
 		auto [first, last] = use_hint(hint, val.first);
-		iterator it;
 		hint = std::lower_bound(
 		    first, last, val,
 		    comp); // that's not a big saving if the hint is really good. except if the element is near the ends. So far, at the end is the typical case.
+		iterator it = begin() + (hint - cbegin());
 		if (hint == cend() or comp(val, *hint))
 		{
 			it.it = content.emplace(hint.it, std::move(val));
@@ -759,7 +759,7 @@ class flat_map
 		bool is_end = hint == cend();
 		hint = hint - 1*is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.
 		const_iterator first = comp(*hint, key) ? hint : cbegin();
-		const_iterator last = comp(key, *hint) ? cend() : hint + 1;
+		const_iterator last = comp(key, *hint) ? hint + 1 : cend();
 		return std::make_pair(first, last);
 	}
 	std::pair<iterator, iterator> use_hint(iterator hint,const key_type &key)
-- 
2.43.0


From bc704043e4331017bf5d3d5d52cbfce034106ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 32/81] fix: flat_map: erase by key removed another element
 when the key is absent

---
 include/blockTensor/flat_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 6a28bde..83fbde8 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -587,11 +587,11 @@ class flat_map
 	size_type erase(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it == end() or comp(k, *it))
 		{
 			return 0;
 		}
-		content.erase(it);
+		content.erase(it.it);
 		return 1;
 	}
 	void swap(flat_map &other) noexcept
-- 
2.43.0


From 11ce5e4a7fc8c7d9a84f1918859723e488e16ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 33/81] fix: flat_map: insert_or_assign and try_emplace with a
 key larger than all others

---
 include/blockTensor/flat_map.h | 53 ++++++++++++++++------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 83fbde8..64a816f 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -23,6 +23,7 @@
 #include <functional>
 #include <iterator>
 #include <numeric>
+#include <tuple>
 #include <utility>
 #include <vector>
 
@@ -431,14 +432,14 @@ class flat_map
 	{
 		bool success = false; // true if the value was actually inserted.
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<M>(obj));
+			it.it = content.emplace(it.it, k, std::forward<M>(obj));
 			success = true;
 		}
 		else
 		{
-			*it = value_type(k, std::forward<M>(obj));
+			it->second = std::forward<M>(obj);
 		}
 		return std::make_pair(it, success);
 	}
@@ -447,14 +448,14 @@ class flat_map
 	{
 		bool success = false; // true if the value was actually inserted.
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<M>(obj));
+			it.it = content.emplace(it.it, std::move(k), std::forward<M>(obj));
 			success = true;
 		}
 		else
 		{
-			*it = value_type(std::move(k), std::forward<M>(obj));
+			it->second = std::forward<M>(obj);
 		}
 		return std::make_pair(it, success);
 	}
@@ -463,16 +464,14 @@ class flat_map
 	{
 
 		auto [first, last] = use_hint(hint, k);
-		iterator it = std::lower_bound(
-		    first, last, k,
-		    comp); // that's not a big saving if the hint is really good. except if the element is near the ends
-		if (comp(k, *it))
+		iterator it = begin() + (std::lower_bound(first, last, k, comp) - cbegin()); // that's not a big saving if the hint is really good. except if the element is near the ends
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<M>(obj));
+			it.it = content.emplace(it.it, k, std::forward<M>(obj));
 		}
 		else
 		{
-			*it = value_type(k, std::forward<M>(obj));
+			it->second = std::forward<M>(obj);
 		}
 
 		return it;
@@ -481,16 +480,14 @@ class flat_map
 	iterator insert_or_assign(const_iterator hint, key_type &&k, M &&obj)
 	{
 		auto [first, last] = use_hint(hint, k);
-		iterator it = std::lower_bound(
-		    first, last, k,
-		    comp); // that's not a big saving if the hint is really good. except if the element is near the ends
-		if (comp(k, *it))
+		iterator it = begin() + (std::lower_bound(first, last, k, comp) - cbegin()); // that's not a big saving if the hint is really good. except if the element is near the ends
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<M>(obj));
+			it.it = content.emplace(it.it, std::move(k), std::forward<M>(obj));
 		}
 		else
 		{
-			*it = value_type(std::move(k), std::forward<M>(obj));
+			it->second = std::forward<M>(obj);
 		}
 		return it;
 	}
@@ -535,9 +532,9 @@ class flat_map
 	{
 		iterator it = std::lower_bound(begin(), end(), k, comp);
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<Args>(args)...);
+			it.it = content.emplace(it.it, std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<Args>(args)...));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -547,9 +544,9 @@ class flat_map
 	{
 		iterator it = std::lower_bound(begin(), end(), k, comp);
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<Args>(args)...);
+			it.it = content.emplace(it.it, std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::forward<Args>(args)...));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -558,11 +555,11 @@ class flat_map
 	std::pair<iterator, bool> try_emplace(const_iterator hint, const key_type &k, Args &&... args)
 	{
 		auto [first, last] = use_hint(hint, k);
-		iterator it = std::lower_bound(first, last, k, comp);
+		iterator it = begin() + (std::lower_bound(first, last, k, comp) - cbegin());
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<Args>(args)...);
+			it.it = content.emplace(it.it, std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<Args>(args)...));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -571,11 +568,11 @@ class flat_map
 	std::pair<iterator, bool> try_emplace(const_iterator hint, key_type &&k, Args &&... args)
 	{
 		auto [first, last] = use_hint(hint, k);
-		iterator it = std::lower_bound(first, last, k, comp);
+		iterator it = begin() + (std::lower_bound(first, last, k, comp) - cbegin());
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<Args>(args)...);
+			it.it = content.emplace(it.it, std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::forward<Args>(args)...));
 			success = true;
 		}
 		return std::make_pair(it, success);
-- 
2.43.0


From 8d4fcb29a980ca9ed4703bd2f7af3b819cf253e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 34/81] fix: flat_map: lower_bound and upper_bound of an absent
 key

---
 include/blockTensor/flat_map.h | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 64a816f..935539a 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -689,34 +689,10 @@ class flat_map
 		return std::make_from_tuple<std::pair<const_iterator, const_iterator>>(
 		    const_cast<flat_map *>(this)->equal_range(k));
 	}
-	iterator lower_bound(const key_type &k)
-	{
-		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
-	}
-	const_iterator lower_bound(const key_type &k) const
-	{
-		auto it = std::lower_bound(cbegin(), cend(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
-	}
-	iterator upper_bound(const key_type &k)
-	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
-	}
-	const_iterator upper_bound(const key_type &k) const
-	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
-	}
+	iterator lower_bound(const key_type &k) { return std::lower_bound(begin(), end(), k, comp); }
+	const_iterator lower_bound(const key_type &k) const { return std::lower_bound(cbegin(), cend(), k, comp); }
+	iterator upper_bound(const key_type &k) { return std::upper_bound(begin(), end(), k, comp); }
+	const_iterator upper_bound(const key_type &k) const { return std::upper_bound(cbegin(), cend(), k, comp); }
 
 	key_compare key_comp() const { return comp.comp; }
 
-- 
2.43.0


From 76b5c63edd24e21de6da41305fb95073aa1edfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 35/81] fix: flat_map: inserting an unsorted range could
 replace the stored elements, or read past an empty map

---
 include/blockTensor/flat_map.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 935539a..03085cc 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -209,17 +209,15 @@ class flat_map
 		return *this;
 	}
 	/**
-	 * @brief set the content of the flat_map to that of the arguement. Does not sort if input isn't already sorted.
-	 * 
-	 * TODO: add a call to sort?
+	 * @brief set the content of the flat_map to that of the arguement.
 	 * 
 	 * @param ilist 
 	 * @return flat_map& 
 	 */
 	flat_map &operator=(std::initializer_list<value_type> ilist)
 	{
-		content.resize(0);
-		content.insert(ilist.begin(), ilist.end());
+		clear();
+		insert(ilist.begin(), ilist.end());
 		return *this;
 	}
 
@@ -326,15 +324,14 @@ class flat_map
 	template <class InputIt>
 	void insert(InputIt first, InputIt last)
 	{
-		insert(
-		    first, last, [](auto &, const auto &) {}, [](auto &) {});
+		insert(first, last, [](auto &, const auto &) {});
 	}
 	template <class InputIt, class Collision, class = std::enable_if_t<!std::is_convertible_v<InputIt, const_iterator>>>
 	void insert(InputIt first, InputIt last, Collision &&collision)
 	{
 		static_assert(!std::is_convertible_v<InputIt, const_iterator>, "Don't try to bypass the enable if");
-		content.insert(content.end(), const_iterator(first).base_reference(),const_iterator(last).base_reference());
-		sort();
+		content.insert(content.end(), first, last);
+		sort(content.begin(), content.end()); // stable: the element that was in the map comes before the colliding new ones.
 		auto l = filter_unique(
 		    content.begin(), content.end(),
 		    std::forward<Collision>(collision)); // pack the unique element at the begining, mainting order
@@ -718,7 +715,7 @@ class flat_map
 
   private:
 	content_t content;
-	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::sort(first, last, comp); }
+	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::stable_sort(first, last, comp); }
 	// void remove_collisions(iterator first = begin(), iterator last = end())
 	// { //assume a sorted array
 	// 	auto beg = first while (first != last)
@@ -753,6 +750,8 @@ class flat_map
 	                                           Collision &&collision)
 	{ // no collision get applied to all elements, instead of just the new element inserted.
 		using std::swap;
+		if (first == last)
+			return last;
 		auto l = first;
 		auto second = std::upper_bound(first, last, *l, comp);
 		while (first != last)
-- 
2.43.0


From 48e886d7f524ffce8ab5f97c84142aef2f1630cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 36/81] fix: flat_map: built from its container, the map could
 hold the same key many times

---
 include/blockTensor/flat_map.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 03085cc..07a843a 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -149,8 +149,18 @@ class flat_map
 	{
 	}
 	flat_map(const allocator_type &_alloc = allocator_type()) : comp(), content(_alloc) {}
-	flat_map(content_t &&in) : comp(), content(std::move(in)) { sort(content.begin(), content.end()); }
-	flat_map(const content_t &in) : comp(), content((in)) { sort(content.begin(), content.end()); }
+	flat_map(content_t &&in) : comp(), content(std::move(in))
+	{
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.resize(std::distance(content.begin(), l));
+	}
+	flat_map(const content_t &in) : comp(), content((in))
+	{
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.resize(std::distance(content.begin(), l));
+	}
 	template <class InputIt>
 	flat_map(InputIt first, InputIt last, const key_compare &_comp = key_compare(),
 	         const allocator_type &_alloc = allocator_type())
-- 
2.43.0


From 48f8e18ac4a6d24056df1fbad7c788aae5775a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 37/81] fix: flat_map: merging an rvalue with spare capacity
 applied the nocollision rule to the wrong elements

---
 include/blockTensor/flat_map.h | 38 ++++++++++++++++------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 07a843a..d624f55 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -619,34 +619,32 @@ class flat_map
 
 	template <class C2, class Collision>
 	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision)
-	{
-		merge(std::move(source), std::forward<Collision>(collision), [](auto &&) {});
-	}
-	template <class C2, class Collision, class NoCollision>
-	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
-	           NoCollision &&nocollision)
 	{
 		if (source.capacity() >= source.size() + size()) // reuse source's resources if it avoid doing an allocation.
 		{
 			std::swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
-			insert(
-			    source.begin(), source.end(),
-			    [collision](auto &a, auto &b) {
-				    // b is const in the context that call this lambda function.
-				    // But in this present context, we know it's actually a reference to a non-const value.
-				    // Casting away const in order to change a value should almost never be used.
-				    auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
-				    std::swap(a, c);
-				    collision(a, c);
-			    },
-			    std::forward<NoCollision>(nocollision));
+			insert(source.begin(), source.end(), [&collision](auto &a, auto &b) {
+				// b is const in the context that call this lambda function.
+				// But in this present context, we know it's actually a reference to a non-const value.
+				// Casting away const in order to change a value should almost never be used.
+				auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
+				std::swap(a, c);
+				collision(a, c);
+			});
 		}
 		else
 		{
-			insert(source.begin(), source.end(), std::forward<Collision>(collision),
-			       std::forward<NoCollision>(nocollision));
+			insert(source.begin(), source.end(), std::forward<Collision>(collision));
 		}
 	}
+	template <class C2, class Collision, class NoCollision>
+	void merge(flat_map<key_type, mapped_type, C2, allocator_type> &&source, Collision &&collision,
+	           NoCollision &&nocollision)
+	{
+		// the content cannot be exchanged here: nocollision applies only to the elements of the source.
+		insert(source.begin(), source.end(), std::forward<Collision>(collision),
+		       std::forward<NoCollision>(nocollision));
+	}
 	template <class C2>
 	void merge(const flat_map<key_type, mapped_type, C2, allocator_type> &source)
 	{
@@ -658,7 +656,7 @@ class flat_map
 	{
 		if (source.capacity() >= source.size() + size())
 		{
-			swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
+			std::swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
 			insert(source.begin(), source.end(), [](auto &a, const auto &b) {
 				// b is const in the context that call this lambda function.
 				// But in this present context, we know it's actually a reference to a non-const value.
-- 
2.43.0


From 1335c9de4cd9704765ccb838dff82bd425090518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 38/81] fix: flat_map: emplace without a hint did not compile

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index d624f55..2b561e3 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -506,7 +506,7 @@ class flat_map
 		auto it = std::lower_bound(begin(), end(), val, comp);
 		if (it  == end() or comp(val, *it))
 		{
-			it = content.emplace(it.it, std::move(val));
+			it.it = content.emplace(it.it, std::move(val));
 			success = true;
 		}
 		return std::make_pair(it, success);
-- 
2.43.0


From 4751526468b098395bb9aaba95e5f6badb91a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 39/81] fix: in-place tensorgdot lost its result when the
 output is not contiguous

---
 sources/tensorgdot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index e17b31f..bc8c9b4 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -113,6 +113,8 @@ torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_te
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	at::addmm_out(rout, add_tens.reshape({size1, size2}), t1, t2, beta, alpha);
+	if (!rout.is_alias_of(output)) // reshape had to make a copy
+		output.copy_(rout.reshape(rsizes));
 	return output;
 }
 
@@ -147,6 +149,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	if (!rout.is_alias_of(output)) // reshape had to make a copy
+		output.copy_(rout.reshape(rsizes));
 	return output;
 }
 
@@ -189,6 +193,8 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	if (!rout.is_alias_of(output)) // reshape had to make a copy
+		output.copy_(rout.reshape(rsizes));
 	return output;
 }
 
-- 
2.43.0


From 21437e02497e23726e6aae863bf3e00763d1b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 40/81] fix: tensorgdot_ read out of bounds when asked to
 contract more dimensions than a tensor has

---
 sources/tensorgdot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index bc8c9b4..7bc51f7 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -163,6 +163,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	Tensor t2 = input2;
 	auto sizes1 = t1.sizes();
 	auto sizes2 = t2.sizes();
+	TORCH_CHECK(dims >= 0 and dims <= t1.dim() and dims <= t2.dim(), "cannot contract more dimensions than the tensors have");
 	// auto [p1, p2, rsizes, size1, csize, size2] = compute_shape(output, t1, t2, input1, input2, dims1, dims2);
 	std::vector<int64_t> rsizes(t1.dim() + t2.dim() - 2 * dims);
 	auto rit = rsizes.begin();
-- 
2.43.0


From 9310ddf4059274e6c225dc6160740ee27b901b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 41/81] fix: reverse appended zeros to the reversed list of
 dimensions

---
 sources/dimension_manip.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index ff1e253..d93ff7b 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -49,9 +49,7 @@ int64_t prod(torch::IntArrayRef dims, size_t start, size_t n)
 
 std::vector<int64_t> reverse(torch::IntArrayRef dims)
 {
-	std::vector<int64_t> out(dims.size());
-	out.insert(out.begin(),dims.rbegin(),dims.rend());
-	return out;
+	return std::vector<int64_t>(dims.rbegin(),dims.rend());
 }
 
 
-- 
2.43.0


From c6bbdc57631fa892876502d8890dc83e2ec69b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 42/81] fix: slice of a list of dimensions was declared but not
 defined

---
 sources/dimension_manip.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index d93ff7b..17f3afc 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -58,4 +58,9 @@ torch::IntArrayRef slice(const std::vector<int64_t>& in, size_t start, size_t n)
 	return torch::IntArrayRef(in).slice(start,n);
 }
 
+torch::IntArrayRef slice(torch::IntArrayRef in, size_t start, size_t n)
+{
+	return in.slice(start,n);
+}
+
 }//QuantiT
\ No newline at end of file
-- 
2.43.0


From 87c4bd72591fcf4e8e2f0dca0ccc6b16b1d18ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 43/81] fix: documentation of the scale factors of tensorgdot

---
 include/tensorgdot.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/tensorgdot.h b/include/tensorgdot.h
index 929139d..34ab18c 100644
--- a/include/tensorgdot.h
+++ b/include/tensorgdot.h
@@ -19,7 +19,7 @@
 namespace quantit
 {
 /**
- * @brief generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param add The input tensor C
@@ -27,15 +27,15 @@ namespace quantit
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor The output tensor D
  */
 torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                          torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                          torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * 
@@ -44,8 +44,8 @@ torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, co
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& refrence to the output tensor
  */
 torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, const torch::Tensor& mul2,
@@ -53,7 +53,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
                            torch::Scalar beta = 1, torch::Scalar alpha = 1);
 
 /**
- * generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output the output tensor D
@@ -62,15 +62,15 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& Reference to the output tensor D
  */
 torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                               torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                               torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output output tensor C, result of the contraction is added to it.
-- 
2.43.0


From b6065c070b6f9bc5a3f66cb1f3f1e6aed95681f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 44/81] fix: decompositions of block tensors keep the element
 type of their input

---
 sources/btensor_linalg.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1dd5886..5007c17 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,7 +131,7 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
-	auto out_tensor = torch::zeros(tensor_size);
+	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
 	{
@@ -321,7 +321,9 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
 	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape)
+	             .neutral_shape_()
+	             .to(torch::real(torch::empty({}, tensor.options())).options()); // the weights are always real.
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
@@ -435,7 +437,9 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape)
+	             .neutral_shape_()
+	             .to(torch::real(torch::empty({}, tensor.options())).options()); // the weights are always real.
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-- 
2.43.0


From 9dc38f0d86548efeb47cb68199dbda522dc5c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 45/81] fix: eigh of block tensors lays rows and columns out in
 the same order

---
 sources/btensor_linalg.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 5007c17..97fee86 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,6 +131,15 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
+	// lay the columns out in the order of their sections, like the rows, whatever the order they were encountered in.
+	// The matrix of a symmetric problem is symmetric only if both sides have the same order.
+	col_acc = 0;
+	for (auto &[col, slice] : encountered_block_col)
+	{
+		auto slice_end = col_acc + slice.stop() - slice.start();
+		slice = torch::indexing::Slice(col_acc, slice_end);
+		col_acc = slice_end;
+	}
 	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
-- 
2.43.0


From 7170ca91504b5a53c94673b2613341f75821be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 46/81] fix: decompositions of block tensors without blocks

---
 sources/btensor_linalg.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 97fee86..57769a5 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -239,6 +239,8 @@ compact_dense(const btensor &tensor)
 	};
 
 	out_type out_tensors(compact_tensor_count(block_list, rank_greater_than_2, rank, equal_index, equal_c_vals));
+	if (block_list.empty())
+		return out_tensors; // a tensor without blocks has no matrices.
 	// create the list of <tensorIndex, bloc_position> pairs for all the sections involved.
 	auto it1 = block_list.begin();
 	auto it2 = block_list.begin() + 1;
@@ -308,10 +310,11 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	    tensors_n_indices = LA_helpers::compact_dense(tensor);
 	// compute the size and conserved values of the diagonnal matrix, most likely to be the same code for the eigenvalue
 	// problem.
-	auto d_blocks = tensors_n_indices.size();
-	any_quantity_vector right_D_cvals(d_blocks, tensor.selection_rule->neutral());
-	any_quantity_vector left_D_cvals(d_blocks, tensor.selection_rule->neutral());
-	std::vector<int64_t> D_block_sizes(tensors_n_indices.size());
+	// a tensor without blocks has no weights: its bond is a single section in which nothing is stored.
+	auto d_blocks = std::max<size_t>(tensors_n_indices.size(), 1);
+	any_quantity_vector right_D_cvals(d_blocks, tensor.section_conserved_qtt(tensor.dim() - 1, 0));
+	any_quantity_vector left_D_cvals(d_blocks, tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse());
+	std::vector<int64_t> D_block_sizes(d_blocks, 1);
 	auto D_rcval_it = right_D_cvals.begin();
 	auto D_lcval_it = left_D_cvals.begin();
 	auto D_bsize_it = D_block_sizes.begin();
@@ -407,10 +410,11 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	    tensors_n_indices = LA_helpers::compact_dense(tensor);
 	// compute the size and conserved values of the diagonnal matrix, most likely to be the same code for the eigenvalue
 	// problem.
-	auto d_blocks = tensors_n_indices.size();
-	any_quantity_vector right_D_cvals(d_blocks, tensor.selection_rule->neutral());
-	any_quantity_vector left_D_cvals(d_blocks, tensor.selection_rule->neutral());
-	std::vector<int64_t> D_block_sizes(tensors_n_indices.size());
+	// a tensor without blocks has no weights: its bond is a single section in which nothing is stored.
+	auto d_blocks = std::max<size_t>(tensors_n_indices.size(), 1);
+	any_quantity_vector right_D_cvals(d_blocks, tensor.section_conserved_qtt(tensor.dim() - 1, 0));
+	any_quantity_vector left_D_cvals(d_blocks, tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse());
+	std::vector<int64_t> D_block_sizes(d_blocks, 1);
 	auto D_rcval_it = right_D_cvals.begin();
 	auto D_lcval_it = left_D_cvals.begin();
 	auto D_bsize_it = D_block_sizes.begin();
-- 
2.43.0


From f598dc2fe59825150f6167f67360a1a6f55d2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 47/81] fix: eigh of block tensors with a split called itself
 forever

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 57769a5..5677794 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -385,7 +385,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// reshape according to split
 	auto rtensor = tensor.reshape({static_cast<int64_t>(split)});
 	// call batched SVD
-	auto [d, rU] = eigh(rtensor, true); // we want the eigenvectors.
+	auto [d, rU] = eigh(rtensor, BOOL(true)); // a bool alone would convert to the split of this very function.
 	// undo reshape
 	std::vector<int64_t> U_shape(tensor.dim(), -1);
 	{
-- 
2.43.0


From 1724e402f0952abc216851aa689359058498f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 48/81] fix: eigenvectors of block tensors carry the selection
 rule of the tensor

---
 sources/btensor_linalg.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 5677794..698f77a 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -339,9 +339,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape)
-	                           .shift_selection_rule_(tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse()),
-	                       rightD_shape);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
-- 
2.43.0


From c5663e97a3100baa106c5230d8b5e5fdab1e2991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 49/81] fix: factors and weights of a block decomposition keep
 single precision

---
 sources/btensor_linalg.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 698f77a..c1a4d57 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -331,8 +331,10 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                   tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                   tensor.options());
 	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape)
 	             .neutral_shape_()
 	             .to(torch::real(torch::empty({}, tensor.options())).options()); // the weights are always real.
@@ -441,8 +443,10 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                   tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                   tensor.options());
 	// small d is just the diagonnal of D, the diagonal matrix of singular values.
 	//  because it is a vector, the correct operation to multiply it with the other matrices is a broadcasting
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
-- 
2.43.0


From 722da2268d638dfc4a5f90305fb9a43b60aa0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 50/81] fix: truncation always keeps one value and accepts an
 empty list

---
 sources/LinearAlgebra.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 6bafc72..af637f5 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -11,6 +11,7 @@
  * Licensed under GPL v3
  */
 
+#include <algorithm>
 #include <exception>
 #include <limits>
 #include "LinearAlgebra.h"
@@ -63,10 +64,13 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
 	auto Last_dim_size = d.sizes()[d.sizes().size()-1];
 	auto toln = torch::pow(torch::ones({})*tol,pow);
 	int64_t last_index = Last_dim_size-1;
+	if (last_index < 0)
+		return last_index; // there is nothing to keep
 	auto trunc_val = d.index({Ellipsis,last_index}).abs().pow(pow);// will have to test to make sure we're not doing the abs and pow in place in d
-	while (last_index >= min_size)
+	auto least = static_cast<int64_t>(std::min<size_t>(std::max<size_t>(min_size, 1), Last_dim_size)); // something is always kept
+	while (last_index >= least)
 	{
-		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)
+		if (  (  trunc_val > toln).any().item().to<bool>() and static_cast<size_t>(last_index) < max_size)
 			break;
 		--last_index;
 		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
-- 
2.43.0


From 2cf22e7056daf69d24fd8c143d5de235016bd8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 51/81] fix: truncation of an ascending list follows the
 documented rule and counts

---
 sources/LinearAlgebra.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index af637f5..3fb8e1e 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -31,13 +31,16 @@ int64_t compute_first_index_ascending(torch::Tensor d, torch::Scalar tol, torch:
 	using namespace torch::indexing;
 	auto Last_dim_size = d.sizes()[d.sizes().size() - 1];
 	// auto last_index = Last_dim_size-1;
+	auto toln = torch::pow(torch::ones({}) * tol, pow);
 	int64_t first_index = 0;
+	if (Last_dim_size == 0)
+		return first_index; // there is nothing to keep
 	auto trunc_val = d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
-	auto min_index = Last_dim_size - min_size;
-	auto max_index = Last_dim_size - max_size;
-	while (first_index <= min_index)
+	auto least = static_cast<int64_t>(std::min<size_t>(std::max<size_t>(min_size, 1), Last_dim_size));
+	while (Last_dim_size - first_index > least)
 	{
-		if (  (trunc_val > tol).any().item().to<bool>() and first_index >= max_index)
+		if ((trunc_val > toln).any().item().to<bool>() and
+		    static_cast<size_t>(Last_dim_size - first_index) <= max_size)
 			break;
 		++first_index;
 		trunc_val += d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
-- 
2.43.0


From 7d41130cc8451b8a1b3976b54a4539734f0df9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 52/81] fix: truncated eigendecomposition of plain tensors
 keeps the largest eigenvalues and their vectors

---
 include/LinearAlgebra.h   |  4 ++--
 sources/LinearAlgebra.cpp | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/LinearAlgebra.h b/include/LinearAlgebra.h
index 0cb4cee..c28768a 100644
--- a/include/LinearAlgebra.h
+++ b/include/LinearAlgebra.h
@@ -68,7 +68,7 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
  * Output is in the same order as input
  */
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor d, torch::Tensor v, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
-std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
+std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
 
 /**
  * truncate the input tensors according to the small values of e.
@@ -92,7 +92,7 @@ std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e
  * @param pow power in the computation of the truncation error
  * @return std::tuple<torch::Tensor,torch::Tensor> 
  */
-std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
+std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
 
 /**
  * perform the singular value decomposition of the rank N tensor A. 
diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 3fb8e1e..8916603 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -93,8 +93,8 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,t
 
 std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size, size_t max_size, torch::Scalar pow)
 {	
-	auto& [d,u] = tensors;
-	return truncate(u,d,tol,min_size,max_size,pow);
+	auto& [u,e] = tensors;
+	return truncate(u,e,tol,min_size,max_size,pow);
 }
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {	
@@ -102,7 +102,7 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch:
 	return truncate(u,d,v,tol,min_size,max_size,pow);
 }
 
-std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor e,torch::Tensor u, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
+std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
 	using namespace torch::indexing;
 	auto last_index = compute_last_index(e,tol,pow,min_size,max_size);
@@ -163,7 +163,11 @@ std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch
 
 std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
-	return truncate(quantit::eigh(A,split),tol,min_size,max_size,pow);
+	auto [e,u] = quantit::eigh(A,split);
+	// the eigenvalues are in ascending order: the largest magnitudes, which are kept, can be at both ends.
+	auto order = std::get<1>(e.abs().sort(-1,true));
+	auto [tu,te] = truncate(u.index_select(-1,order),e.index_select(-1,order),tol,min_size,max_size,pow);
+	return std::make_tuple(te,tu);
 }
 
 std::tuple<torch::Tensor,torch::Tensor> eig(torch::Tensor A, size_t split)
-- 
2.43.0


From ee6ec5d3f367cdc1e4a791ed51ffc2615f5403e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 53/81] fix: truncation of block decompositions selects by
 magnitude over all sectors, eigenvectors included

---
 sources/btensor_linalg.cpp | 186 ++++++++-----------------------------
 1 file changed, 40 insertions(+), 146 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index c1a4d57..0c87299 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -552,54 +552,6 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, size_t split)
 	return std::make_tuple(U, d, V);
 }
 
-/**
- * @brief Search for the first index with a value not greater than val in a desccending ordered list of value. For
- * pytorch.
- *
- * Currently a linear search, a branchless binary search might be better.
- *
- * @tparam TorchAccessor
- * @tparam Value
- * @param acc
- * @param val
- * @return int64_t
- */
-template <class TorchAccessor, class Value>
-int64_t lower_bound_impl2(TorchAccessor &acc, Value &val)
-{
-	int64_t i = 0;
-	for (; i < acc.size(0); ++i)
-	{
-		if (!(acc[i] > val))
-			break;
-	}
-	return i;
-}
-
-template <torch::ScalarType Scal_type, torch::DeviceType Dev_type>
-int64_t lower_bound_impl(torch::Tensor &tens, const torch::Scalar &val)
-{
-	assert(tens.dim() == 1);
-	using stype = decltype(c10::impl::ScalarTypeToCPPType<Scal_type>::t);
-	auto valA = val.to<stype>();
-	if constexpr (Dev_type == torch::kCPU)
-	{
-		// auto tensA = tens.accessor<double,1>();
-		auto tensA = tens.accessor<stype, 1>();
-		// torch accessor don't supply iterators... piece of crap.
-		return lower_bound_impl2(tensA, valA);
-	}
-	else if constexpr (Dev_type == torch::kCUDA)
-	{
-		// the 32 means we're limited to 32bits addressable size. that's a lot, but we could go beyond using
-		// packed_accessor64
-
-		auto tensA = tens.packed_accessor32<stype, 1>();
-		return lower_bound_impl2(tensA, valA);
-	}
-	static_assert(Dev_type == torch::kCUDA or Dev_type == torch::kCPU, "unsupported device type for this function.");
-}
-
 #define SWITCH_CASE_TORCHDTYPE_NUMERIC_PROP(CPPTYPE, c10ScalarType, numeric_property)                                  \
 	case c10::ScalarType::c10ScalarType:                                                                               \
 		return torch::Scalar(                                                                                          \
@@ -628,40 +580,6 @@ torch::Scalar epsilon(caffe2::TypeMeta dtype){
 	NUMERICAL_PROP_BODY(tens.dtype(), SUB_THIRD, epsilon)
 #undef SUB_THIRD
 }
-// macro for usage with lower_bound_dev
-// create a case for a scalar type supported by pytorch.
-// Theres a macro in torch that turn this into a case for each of the supported type
-#define SWITCH_CASE_TORCHDTYPE_LOWERBOUND(CPPTYPE, c10ScalarType)                                                      \
-	case c10::ScalarType::c10ScalarType:                                                                               \
-		return lower_bound_impl<c10::ScalarType::c10ScalarType, Dev_type>(tens, scal);                                 \
-		break;
-/**
- * @brief dispatch lower_bound_impl based on the scalar type in tens
- */
-template <torch::DeviceType Dev_type>
-int64_t lower_bound_dev(torch::Tensor &tens, const torch::Scalar &scal)
-{
-
-	switch (torch::typeMetaToScalarType(tens.dtype()))
-	{
-		AT_FORALL_SCALAR_TYPES(SWITCH_CASE_TORCHDTYPE_LOWERBOUND)
-	default:
-		throw std::invalid_argument(
-		    fmt::format("unsupported element type {} of tensors for lowerbound, complex numbers are unsupported.",
-		                tens.dtype().name()));
-		break;
-	}
-}
-
-int64_t lower_bound(torch::Tensor &tens, const torch::Scalar &scal)
-{
-	if (tens.device() == torch::kCUDA)
-		return lower_bound_dev<torch::kCUDA>(tens, scal);
-	else if (tens.device() == torch::kCPU)
-		return lower_bound_dev<torch::kCPU>(tens, scal);
-	throw std::logic_error(fmt::format("unsupported backend {} for quantit::lower_bound(torch::Tensor&,torch::Scalar&>",
-	                                   c10::DeviceTypeName(tens.device().type())));
-}
 /**
  * @brief truncation for a decomposition that induce any number of unitary matrix and a list of scalar weights
  *
@@ -680,75 +598,51 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	static_assert(std::conjunction_v<std::is_same<BTENS, btensor>...>, "The unitaries must be btensors!");
 	// d is a vector of singular values
 	assert(d.dim() == 1);
-	// prepare a list containing all the singular value
-	auto L = std::accumulate(d.begin(), d.end(), 0, [](auto &&a, auto &&b) { return a + std::get<1>(b).sizes()[0]; });
-	auto vd = torch::zeros(
-	    {L}, torch::device(torch::kCPU).dtype(torch::kDouble)); // always done on the CPU with double precicion
-	size_t n = 0;
+	using namespace torch::indexing;
+	// list the magnitude of all the weights, always done on the CPU with double precision.
+	std::vector<torch::Tensor> magnitudes;
+	magnitudes.reserve(std::distance(d.begin(), d.end()));
 	for (const auto &block : d)
+		magnitudes.push_back(std::get<1>(block).abs().to(torch::kCPU, torch::kDouble));
+	if (magnitudes.empty())
+		return std::make_tuple(std::move(d), std::move(unitaries)); // nothing to truncate.
+	auto vd = std::get<0>(torch::cat(magnitudes).sort(-1, true)); // descending order
+	auto smallest_value = vd.index({compute_last_index(vd, tol, pow, min, max)}).item().toDouble();
+	smallest_value -= 2 * smallest_value *
+	                  epsilon(std::get<1>(*d.begin())).toDouble(); // Better chance to preserve degenerate multiplets.
+	// for each block of weights, we can remove all the values smaller than this one without inducing an error larger
+	// than the tol.
+	auto remove_unit_blocks = [](btensor &unitary, int64_t section)
 	{
-		auto &tens = std::get<1>(block);
-		auto l = tens.sizes()[0];
-		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens); // bug here.
-		n += l;
-	}
-	// quantit::print(vd);
-	vd = std::get<0>(
-	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
-	// vd is now sorted in ascending order.
-	auto smallest_value = vd.index({torch::indexing::Ellipsis, compute_last_index(vd, tol, pow, min, max)});
-	smallest_value -=
-	    2 * smallest_value * epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
-	// fmt::print("epsilon {}\n",epsilon(smallest_value).toDouble());
-	// for each block trio, we can remove all the values smaller than the one in smallest_value
-	// without inducing an error larger than the tol.
-	auto d_it = d.end();
-	std::vector<btensor::index_list> to_remove;
-	to_remove.reserve(std::distance(d.begin(), d.end()));
-	auto remove_unit_blocks = [](btensor &unitary, const auto &d_ind)
-	{
-		auto U_src = unitary.begin();
-		auto U_dest = unitary.begin();
-		while (U_dest != unitary.end())
+		auto it = unitary.blocks_list.begin();
+		while (it != unitary.blocks_list.end())
 		{
-			auto &src_ind = std::get<0>(*U_src);
-			auto &dest_ind = std::get<0>(*U_dest);
-			U_dest += (dest_ind.back() == d_ind.back());
-			if (U_dest != U_src and U_dest != unitary.end())
-			{
-				swap(*U_dest, *U_src);
-			}
-			U_dest += U_dest != unitary.end(); // stop incrementing if we reached the end
-			++U_src;
+			if (std::get<0>(*it).back() == section)
+				it = unitary.blocks_list.erase(it);
+			else
+				++it;
 		}
-		unitary.blocks_list.resize(
-		    unitary.blocks_list.size() -
-		    std::distance(U_src, U_dest)); // the unwanted blocks are pushed to the end, resizing down destroy them.
 	};
-	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
+	auto trunc_unit_block = [](btensor &unitary, int64_t section, const torch::Tensor &kept)
 	{
-		U.sections_sizes[U.sections_sizes.size() - (d.sections_sizes.size() - d_ind.back())] = last_index;
-		using namespace torch::indexing;
-		auto U_it = U.begin();
-		while (U_it != U.end())
+		// the weighted dimension is the last one: its sections are the last of the list.
+		unitary.sections_sizes[unitary.sections_sizes.size() - unitary.sections_by_dim.back() + section] = kept.size(0);
+		for (auto &block : unitary)
 		{
-			auto &U_ind = std::get<0>(*U_it);
-			auto &Ub = std::get<1>(*U_it);
-			if (U_ind.back() == d_ind.back())
-				Ub = Ub.index({Ellipsis, Slice(0, last_index)});
-			++U_it;
+			if (std::get<0>(block).back() == section)
+				std::get<1>(block) = std::get<1>(block).index_select(-1, kept.to(std::get<1>(block).device()));
 		}
 	};
+	auto mag_it = magnitudes.end();
+	auto d_it = d.end();
 	while (d_it != d.begin())
 	{
 		--d_it;
-		auto &d_ind = std::get<0>(*d_it);
+		--mag_it;
+		const auto section = std::get<0>(*d_it).back();
 		auto &db = std::get<1>(*d_it);
-		using namespace torch::indexing;
-		// fmt::print("last_index! {}\n\n", db > smallest_value);
-		// fmt::print("last_index other order because of implicit casts!! {}\n\n",  smallest_value < db);
-		auto last_index = lower_bound(db, smallest_value.item());
-		if (last_index == 0)
+		auto kept = torch::nonzero(*mag_it >= smallest_value).reshape({-1}); // positions of the kept weights
+		if (kept.size(0) == 0)
 		{ // remove the whole block...
 			// i think, out of laziness and lack of advantages to the converse, i will only erase the blocks without
 			// changing the shape of the blocktensor. This mean the resulting tensor will have extra structure, with no
@@ -757,17 +651,17 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 			// induce an empty section in the singular values tensor
 			// Correctly evaluating the bond dimension of a MPS becomes a bit more involved. But the induced extra
 			// structure should disapear as DMRG nears convergence
-			for_each(unitaries, [&d_ind, &remove_unit_blocks](btensor &U) { return remove_unit_blocks(U, d_ind); });
-			d.blocks_list.erase(d_it);
+			for_each(unitaries, [section, &remove_unit_blocks](btensor &U) { return remove_unit_blocks(U, section); });
+			d_it = d.blocks_list.erase(d_it);
 		}
-		else
+		else if (kept.size(0) != db.size(0))
 		{ // truncate d
-			db = db.index({Slice(0, last_index)});
+			db = db.index_select(0, kept.to(db.device()));
 			// adjust the section sizes
-			d.sections_sizes[d_ind.back()] = last_index;
+			d.sections_sizes[section] = kept.size(0);
 			// truncate all the blocks in U on the section matching with the current d block.
-			for_each(unitaries, [&d_ind, &last_index, &trunc_unit_block](btensor &U)
-			         { return trunc_unit_block(U, d_ind, last_index); });
+			for_each(unitaries, [section, &kept, &trunc_unit_block](btensor &U)
+			         { return trunc_unit_block(U, section, kept); });
 		}
 	}
 	return std::make_tuple(std::move(d), std::move(unitaries));
@@ -806,7 +700,7 @@ std::tuple<btensor, btensor> truncate(std::tuple<btensor, btensor> &&e_S, size_t
                                       btensor::Scalar pow)
 {
 	auto [d, unit] =
-	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<0>(e_S))), max, min, tol, pow);
+	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<1>(e_S))), max, min, tol, pow);
 	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));
 }
 std::tuple<btensor, btensor, btensor> truncate(btensor &&U, btensor &&e, btensor &&S, size_t max, size_t min,
-- 
2.43.0


From d18e8f63b5dce1decfcca43dc59debec72127de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 54/81] fix: contraction of block states with default edges
 vanished when the first sections of their tensors had different charges

---
 sources/MPT.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 138057d..07679bc 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -219,14 +219,24 @@ btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edg
 	}
 	return tensordot(left_edge, right_edge, {0, 1, 2}, {0, 1, 2});
 }
+/**
+ * @brief identity between the boundary bonds of two states.
+ *
+ * The selection rule must be neutral, no matter which charges the first sections of the other dimensions have:
+ * otherwise the identity has no blocks.
+ */
+static btensor overlap_edge(const btensor &a, const btensor &b, std::initializer_list<int64_t> dims)
+{
+	auto shape = shape_from(shape_from(a, dims).inverse_cvals_(), shape_from(b, dims));
+	shape.neutral_selection_rule_();
+	return eye_like(shape);
+}
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 {
 	// todo:: adapt to work with Btensors.
 	// need a btensor implementation of ones. must be a one_like thing.
-	auto left_edge =
-	    eye_like(shape_from(shape_from(a.front(), {-1, 0, 0}).inverse_cvals_(), shape_from(b.front(), {-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(shape_from(a.back(), {0, 0, -1}).inverse_cvals_(), shape_from(b.back(), {0, 0, -1})));
+	auto left_edge = overlap_edge(a.front(), b.front(), {-1, 0, 0});
+	auto right_edge = overlap_edge(a.back(), b.back(), {0, 0, -1});
 	left_edge = tensordot(left_edge, ones_like(details::edge_shape_prep(obs.front(), 0)), {}, {}).permute({0, 2, 1});
 	right_edge = tensordot(right_edge, ones_like(details::edge_shape_prep(obs.back(), 2)), {}, {}).permute({0, 2, 1});
 	return contract(a, b, obs, std::move(left_edge), right_edge);
@@ -284,10 +294,8 @@ btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor
 }
 btensor contract(const bMPS &a, const bMPS &b)
 {
-	auto left_edge =
-	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0})));
-	auto right_edge =
-	    eye_like(shape_from(a.back().shape_from({0, 0, -1}).inverse_cvals_(), b.back().shape_from({0, 0, -1})));
+	auto left_edge = overlap_edge(a.front(), b.front(), {-1, 0, 0});
+	auto right_edge = overlap_edge(a.back(), b.back(), {0, 0, -1});
 	return contract(a, b, left_edge, right_edge);
 }
 
-- 
2.43.0


From fa5401a0eafd3979c57b3d83d1156ac2208bbcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 55/81] fix: check_ranks read out of bounds on empty networks
 and on tensors of low rank

---
 sources/MPT.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 07679bc..ab05054 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -119,15 +119,13 @@ bool MPS::check_one(const Tens &tens)
 
 bool MPS::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
-	bool all_rank_3 = std::all_of(begin(), end(),
-	                              [&prev_bond](const Tens &el)
-	                              {
-		                              using std::swap;
-		                              auto bond = el.sizes()[2];
-		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 3 and bond == el.sizes()[0];
-	                              });
+	if (empty())
+		return true;
+	bool all_rank_3 = std::all_of(begin(), end(), [](const Tens &el) { return el.sizes().size() == 3; });
+	for (size_type i = 1; all_rank_3 and i < size(); ++i)
+	{
+		all_rank_3 = (*this)[i - 1].sizes()[2] == (*this)[i].sizes()[0];
+	}
 	return all_rank_3;
 }
 
@@ -169,20 +167,20 @@ bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 
 bool MPO::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
-	bool all_rank_4 = std::all_of(begin(), end(),
-	                              [&prev_bond](const Tens &el)
-	                              {
-		                              using std::swap;
-		                              auto bond = el.sizes()[2];
-		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 4 and bond == el.sizes()[0];
-	                              });
+	if (empty())
+		return true;
+	bool all_rank_4 = std::all_of(begin(), end(), [](const Tens &el) { return el.sizes().size() == 4; });
+	for (size_type i = 1; all_rank_4 and i < size(); ++i)
+	{
+		all_rank_4 = (*this)[i - 1].sizes()[2] == (*this)[i].sizes()[0];
+	}
 	// assert(all_rank_4);// a MPS must have only rank 3 tensors
 	return all_rank_4;
 }
 bool bMPO::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto it = begin();
 	auto next = begin() + 1;
 	bool all_rank_4 = it->dim() == 4;
@@ -196,6 +194,8 @@ bool bMPO::check_ranks() const
 }
 bool bMPS::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto next = begin() + 1;
 	auto it = begin();
 	bool all_rank_3 = it->dim() == 3;
-- 
2.43.0


From cc561e6e876da8e3a415dbbecd40595e714aa495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 56/81] fix: coalesce of an empty block MPO

---
 sources/MPT.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index ab05054..8f398d7 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -151,6 +151,8 @@ bool bMPO::check_one(const Tens &tens)
 
 bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 {
+	if (empty())
+		return *this;
 	auto it = begin();
 	auto next_it = it + 1;
 	for (; next_it != end(); ++it, ++next_it)
-- 
2.43.0


From e4a8105ce4c68ee2a695b8900f2a63eaf46c9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 57/81] fix: networks built from iterators skipped the checks
 of the other constructors, bMPS left its orthogonality center uninitialised

---
 include/MPT.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index aeb0016..fc802fa 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -365,7 +365,12 @@ class MPS final
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0) {}
+	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		if (not check_ranks())
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPS() = default;
 
@@ -464,7 +469,12 @@ class MPO final : public vector_lift<MPO> // specialization for rank 4 tensors
 			throw std::invalid_argument("Input MPT is an invalid MPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end) {}
+	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end)
+	{
+		if (not check_ranks())
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPO() = default;
 
@@ -579,7 +589,12 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		if (not check_ranks())
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPS() = default;
 
@@ -678,7 +693,12 @@ class bMPO final : public vector_lift<bMPO, btensor> // specialization for rank
 			throw std::invalid_argument("Input bMPT is an invalid bMPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end)
+	{
+		if (not check_ranks())
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPO() = default;
 
-- 
2.43.0


From 1799634f3efded863a121ed4237cea1e9ac234fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 58/81] fix: charges of the Heisenberg bonds were those of the
 sites, not those carried by the spin operators

---
 sources/models.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 8221a0a..9bf8336 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -91,9 +91,10 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 
 bMPO Heisenberg(torch::Tensor J, size_t lenght,const btensor& phys_shape)
 {
-	auto p = [&phys_shape](size_t i)-> any_quantity_cref{return phys_shape.element_conserved_qtt(0,i);};
+	auto p = [&phys_shape](size_t i)-> any_quantity{return phys_shape.element_conserved_qtt(0,i);};
 	auto neutral = p(0).neutral();
-	auto left_bond = btensor({{{1,neutral},{1,p(0)},{1,p(1)},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
+	// the charge of a bond is what the lowering and raising operators next to it remove from the site
+	auto left_bond = btensor({{{1,neutral},{1,p(1)*p(0).inverse()},{1,p(0)*p(1).inverse()},{1,neutral},{1,neutral}}},neutral,phys_shape.options());
 	auto local_shape = shape_from(left_bond,phys_shape,left_bond.conj(),phys_shape.conj());
 	MPO tmp_hamil = Heisenberg(J,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 2a0772ab2522e0ad0bc72865ab08dd135ddd3ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 59/81] fix: charge conserving Hubbard model refused empty
 sites with a charge

---
 sources/models.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 9bf8336..2005174 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -166,7 +166,10 @@ bMPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght,const btensor& Phy
 {
 	// element: 0 empty, 1 single down electron, 2 single up electron,3 one up and one down
 	auto p = [&Phys_shape](size_t i)->any_quantity{return Phys_shape.element_conserved_qtt(0,i);};
-	auto left_bond = btensor({{{1,p(0)},{1,p(1)},{1,p(2)},{1,p(1).inverse()},{1,p(2).inverse()},{1,p(0)}}},p(0),Phys_shape.options());
+	auto neutral = p(0).neutral();
+	// the charge of a bond is what the operator next to it removes from the site, whatever the charge of the empty site
+	auto q = [&p](size_t i) -> any_quantity { return p(i) * p(0).inverse(); };
+	auto left_bond = btensor({{{1,neutral},{1,q(1)},{1,q(2)},{1,q(1).inverse()},{1,q(2).inverse()},{1,neutral}}},neutral,Phys_shape.options());
 	auto local_shape = shape_from(left_bond,Phys_shape,left_bond.conj(),Phys_shape.conj());
 	MPO tmp_hamil = Hubbard(U,mu,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 9b4687d7a4a27f9c46e9e441f634ccc00c8b43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 60/81] fix: charge conserving models of a single site or with
 couplings below 1e-4 were refused, models without sites read out of bounds

---
 sources/models.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 2005174..c6259a4 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -43,6 +43,8 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	auto type = torch::get_default_dtype();
 	if (!J.is_floating_point())
 		type = torch::scalarTypeToTypeMeta(torch::kInt8);
+	if (lenght == 0)
+		throw std::invalid_argument("the model must have at least one site");
 	auto local_tens = torch::zeros({5, 2, 5, 2}, type);
 	auto [sx, isy, sz, lo, id] = pauli();
 	auto hi = lo.t();
@@ -71,7 +73,13 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 {
 	auto length = tmp_hamil.size();
 	bMPO out(length);
-	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),1e-4);
+	if (length == 1)
+	{ // both ends on the same site
+		out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,0,-1},true),tmp_hamil.front());
+		if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) throw std::invalid_argument("the local shape is incompatible with the MPO at site 0.");
+		return out;
+	}
+	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front());
 	constexpr auto message = "the local shape is incompatible with the MPO at site {}.";
 	if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) 
 	{
@@ -81,10 +89,10 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 	size_t i =1;
 	for(; i<length-1;++i)
 	{
-		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i],1e-4);
+		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i]);
 		if (!torch::allclose(out[i].to_dense(),tmp_hamil[i]))throw std::invalid_argument(fmt::format(message,i));
 	}
-	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back(),1e-4);
+	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back());
 	if (!torch::allclose(out.back().to_dense(),tmp_hamil.back())) throw std::invalid_argument(fmt::format(message,i));
 	return out;
 }
@@ -123,6 +131,8 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 		throw std::invalid_argument(fmt::format(errorstr, "U", U.dim()));
 	if (mu.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "mu", mu.dim()));
+	if (lenght == 0)
+		throw std::invalid_argument("the model must have at least one site");
 	auto local_tens = torch::zeros({6, 4, 6, 4});
 	auto [c_up, c_dn, F, id] = fermions();
 	auto n_up = torch::matmul(c_up.conj().t(), c_up);
-- 
2.43.0


From 94f2b665d8fafc7d86cd0bd6d29eecff9b95736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 61/81] fix: two sites hamiltonians of an empty MPO

---
 sources/dmrg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index df7bbb3..ea78d17 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -504,6 +504,8 @@ template <class MPO_type>
 auto compute_2sitesHamil_impl(const MPO_type &hamil)
 {
 	auto l = hamil.size();
+	if (l < 2)
+		return typename dependant_tensor_network<MPO_type>::MPT_type(); // there are no pairs of sites
 	typename dependant_tensor_network<MPO_type>::MPT_type out(l - 1);
 	for (size_t i = 0; i < l - 1; ++i)
 	{
-- 
2.43.0


From 8e4be556faf57dc393a1a0801b764c0d4331da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 62/81] fix: dmrg read out of bounds with less than two sites
 or networks of different lengths

---
 sources/dmrg.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index ea78d17..84e0582 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -89,8 +89,21 @@ class dmrg_gradient_guard
 	}
 };
 
+/**
+ * The algorithm optimizes pairs of neighbouring sites, the operator and the state must have the same ones.
+ */
+template <class MPO_t, class MPS_t>
+void check_lengths(const MPO_t &hamil, const MPS_t &state)
+{
+	if (hamil.size() < 2)
+		throw std::invalid_argument("dmrg needs at least two sites");
+	if (hamil.size() != state.size())
+		throw std::invalid_argument("the hamiltonian and the state have different numbers of sites");
+}
+
 btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_lengths(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state,
 	                          options); // set the tracing of hamil and state to whatever is specified in the option,
 	                                    // then set it back to its original value at the end.
@@ -100,6 +113,7 @@ btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options,
 }
 torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_lengths(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state, options);
 	auto Env = generate_env(hamiltonian, in_out_state);
 	auto TwositesH = compute_2sitesHamil(hamiltonian);
-- 
2.43.0


From 80a56bb0986403e6ba6f6c03f6ec969eaa81d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 63/81] fix: two sites update replaced local eigenstates of
 positive energy by rounding errors

---
 sources/dmrg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 84e0582..f02e7b7 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -641,6 +641,9 @@ std::tuple<Tensor, Tensor> two_sites_update_impl(const Tensor &state, const Tens
                                                  const Tensor &Renv)
 {
 	auto [psi_ip, a0, a1, b] = one_step_lanczos(state, hamil, Lenv, Renv);
+	btensor::Scalar non_singular = ge(b.abs(), 1e-15).item();
+	if (!non_singular.to<bool>()) // The state is an eigenstate: psi_ip isn't a normalized state, only rounding errors.
+		return std::make_tuple(a0, state);
 	// print("STATE UPDATE\nnorm psi_ip {}\n",
 	//    tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}).item().toDouble());
 	// fmt::print("Psi_ip {}\n\na0 {}\n\n a1 {}\n\nb
-- 
2.43.0


From 623f558f181c288b6e044e11f46dfaba359f4408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 64/81] fix: dmrg reported an orthogonality center one site
 left of the true one

---
 sources/dmrg.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index f02e7b7..1f16bc8 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -165,12 +165,14 @@ struct dmrg_2sites_update
 	using tensor_t = typename dependant_tensor_network<MPO_t>::base_tensor_type;
 	const MPT_t &twosite_hamil;
 	size_t &oc;
+	size_t center; // Where the state's orthogonality center really is. When sweeping leftward, oc is the leftmost site of
+	               // the next pair to update, which is one site left of the center.
 	env_t &Env;
 	const dmrg_options &options;
 
-	dmrg_2sites_update(const MPO_t &_hamil, const MPT_t &_twosites_hamil, size_t &_oc, env_t &_Env,
+	dmrg_2sites_update(const MPO_t &_hamil, const MPT_t &_twosites_hamil, size_t &_oc, size_t _center, env_t &_Env,
 	                   const dmrg_options &_options)
-	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), Env(_Env), options(_options)
+	    : hamil(_hamil), twosite_hamil(_twosites_hamil), oc(_oc), center(_center), Env(_Env), options(_options)
 	{
 	}
 	// using print = dummy_print.operator();
@@ -213,6 +215,7 @@ struct dmrg_2sites_update
 			state[oc + 1] = (v.conj()).permute({2, 0, 1});
 			Env[oc + 1] = compute_right_env(hamil[oc + 1], state[oc + 1], Env[oc + 2]);
 		}
+		center = oc + forward;
 		// fmt::print("full norm: \n{}\n",contract(sta6te,state));
 		// fmt::print("full E: \n{}\n",contract(state,state,hamil));
 		oc += step;
@@ -243,12 +246,13 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		step = 0;
 	// fmt::print("step {}\n",step);
 	auto &oc = in_out_state.oc;
+	const size_t start = oc;
 	if (oc == in_out_state.size() - 1)
 	{
 		--init_pos;
 		--oc;
 	}
-	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, Env, options);
+	dmrg_2sites_update update(hamiltonian, two_sites_hamil, oc, start, Env, options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -276,7 +280,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
-	if (oc != init_pos)
+	oc = update.center;
+	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
 	logger.end_log_all(iteration, E0, in_out_state);
@@ -305,12 +310,13 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 		step = 0;
 	// fmt::print("step {}\n",step);
 	auto &oc = in_out_state.oc;
+	const size_t start = oc;
 	if (oc == in_out_state.size() - 1)
 	{
 		--init_pos;
 		--oc;
 	}
-	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, Env, options);
+	dmrg_2sites_update update(hamiltonian, twosites_hamil, oc, start, Env, options);
 	auto iteration = 0u;
 	logger.init(options);
 	for (iteration = 0u; iteration < options.maximum_iterations; ++iteration)
@@ -335,10 +341,11 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
-	oc += (oc == 0); // The oc never really finishes at 0 with the current algo.
+	// The oc never really finishes at 0 with the current algo.
 	// The leftward sweep finishes with the oc at 1, but set the oc at 0,
 	// such the site 0 and 1 are updated together once by the next rightward sweep.
 	// this trickery is necessary to get this optimization without writing special code in the sweeper.
+	oc = update.center;
 	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
-- 
2.43.0


From 55d070968e95a58c94b035d288afae2c090fdecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 65/81] fix: dmrg of block networks accepted states with zero
 norm

---
 sources/dmrg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 1f16bc8..0327f9c 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -236,6 +236,9 @@ struct dmrg_2sites_update
 btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil, bMPS &in_out_state,
                            const dmrg_options &options, benv_holder &Env, dmrg_logger &logger)
 {
+	auto norm = contract(in_out_state, in_out_state).item().toDouble();
+	if (norm == 0 or norm < 1e-15)
+		throw std::invalid_argument("initial state has zero norm!"); // same test as without conservation laws.
 	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
-- 
2.43.0


From a5ca3a91f78828ee1cbca5433aa675abf384fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 66/81] fix: random states without sites or with empty bonds
 read out of bounds

---
 sources/MPT.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 8f398d7..d76fc5f 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -382,6 +382,8 @@ void generate_random_string(std::vector<size_t>::iterator out, size_t L, T &&phy
 template <class T>
 MPS random_MPS_impl(size_t length, size_t bond_dim, T phys_dim, torch::TensorOptions opt)
 {
+	if (length == 0 or bond_dim == 0)
+		throw std::invalid_argument("a random MPS must have at least one site and non zero bonds");
 	MPS out(length);
 	for (auto i = 0u; i < length; ++i)
 	{
@@ -434,6 +436,8 @@ template <class T>
 bMPS random_bMPS_impl(size_t length, int64_t bond_dim, T &&phys_dim, any_quantity_cref constraint, size_t string_N_pass,
                       torch::TensorOptions opt, std::random_device::result_type seed)
 {
+	if (length == 0 or bond_dim <= 0)
+		throw std::invalid_argument("a random MPS must have at least one site and non zero bonds");
 	std::mt19937 gen(seed); // Standard mersenne_twister_engine seeded with rd()
 	std::vector<size_t> phys_inds(bond_dim * length);
 	static_assert(std::is_same_v<decltype(phys_dim(0)), btensor>,
@@ -526,10 +530,10 @@ bMPS random_bMPS(size_t bond_dim, const std::vector<btensor> &phys_dim_spec, any
 		    X.begin(), X.end(),
 		    [](auto &X, auto &Y)
 		    { return std::lexicographical_compare(std::get<0>(X), std::get<1>(X), std::get<0>(Y), std::get<1>(Y)); });
-		auto last = X.cend() - 1;
-		size_t count = 1;
 		if (X.cbegin() == X.cend())
 			throw std::invalid_argument("The supplied MPO is empty!");
+		auto last = X.cend() - 1;
+		size_t count = 1;
 		for (auto it = X.cbegin(); it != last; ++it)
 		{
 			auto range_A = *it;
-- 
2.43.0


From 47773450234719c857a4556697497b2575a16372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 67/81] fix: find_selection_rule read out of bounds when the
 sizes of its arguments differ

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e424a5f..8a9b401 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2657,6 +2657,8 @@ any_quantity find_selection_rule(const torch::Tensor &tens, const btensor &shape
 		throw std::invalid_argument("the input tensor must be rank 2");
 	if (shape.dim() != 2)
 		throw std::invalid_argument("the shape specifying btensor must be rank 2");
+	if (tens.sizes() != torch::IntArrayRef(shape.sizes()))
+		throw std::invalid_argument("the input tensor and the shape specifying btensor must have the same sizes");
 	auto state = torch::zeros(tens.sizes()[tens.dim() - 1], tens.options());
 	auto quantitiesi = [&shape](size_t element_pos, size_t dim) -> const vquantity &
 	{ // return type must be specified, because return by value isn't an option here.
-- 
2.43.0


From 9b0fe7de95e7a67a2fbb0c635015d5c224199de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 68/81] fix: documented order of the pauli operators with
 conservation laws

---
 include/operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operators.h b/include/operators.h
index 5119e9a..0cab732 100644
--- a/include/operators.h
+++ b/include/operators.h
@@ -57,7 +57,7 @@ std::tuple<tens, tens, tens, tens, tens> pauli();
  * Sx and Sy cannot be returned because they do not have a well defined quantum number. To make use of conservation rule
  * with Heisenberg, Ising and other spin models, it must be done in terms of the lower/raising operator and Sz.
  * @param shape A btensor specifying the conserved quantities of the bra an ket sides of the operators.
- * @return std::tuple<btensor,btensor,btensor> lowering operator, Sz, identity
+ * @return std::tuple<btensor,btensor,btensor> Sz, lowering operator, identity
  */
 std::tuple<btensor, btensor, btensor> pauli(const btensor &shape);
 
-- 
2.43.0


From 18cbb4882f2e798e2191bb3e943ace125161d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 69/81] fix: dmrg lost track of the center of orthogonality,
 updates were done by a copy

---
 sources/dmrg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 0327f9c..9d903b7 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -139,7 +139,7 @@ std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &option
 }
 
 template <class T, class MPS_t>
-auto sweep(MPS_t &state, T update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
+auto sweep(MPS_t &state, T &update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
 {
 	using tensor_t = typename dependant_tensor_network<MPS_t>::base_tensor_type;
 	tensor_t E0;
-- 
2.43.0


From fa05bee1c3104fa6cc6284d3f11216717f6178be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 70/81] fix: dmrg energies and updates assumed a normalized
 starting state

---
 sources/dmrg.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 9d903b7..f813c63 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -199,6 +199,7 @@ struct dmrg_2sites_update
 		// MPO_t tmpMPO(hamil.begin() + oc, hamil.begin() + oc + 2);
 		// MPS_t tmpstate(state.begin() + oc, state.begin() + oc + 2);
 		auto local_state = tensordot(state[oc], state[oc + 1], {2}, {0});
+		local_state /= sqrt(tensordot(local_state, local_state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
 		std::tie(E0, local_state) = two_sites_update(local_state, twosite_hamil[oc], Env[oc - 1], Env[oc + 2]);
 		auto [u, d, v] = quantit::svd(local_state, 2, options.cutoff, options.minimum_bond, options.maximum_bond);
 		d /= sqrt(sum(d.pow(2)));
-- 
2.43.0


From 4bacffe66fd35912c134ef988ff3c2946ba5a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 71/81] fix: one step lanczos lost orthogonality near
 eigenstates, dmrg energies went up

---
 sources/dmrg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index f813c63..3a9acd8 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -620,6 +620,8 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	auto a0 = (tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
 	// fmt::print("a0 {}\n",a0);
 	psi_ip -= state * a0;
+	// once more: when state is nearly an eigenstate, what is left is mostly rounding errors, parallel to state.
+	psi_ip -= state * tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3});
 	auto b = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
 	const bool non_singular = [&]()
 	{
-- 
2.43.0


From c346319c60e2eb4f9c40af4ef6f9ec08c8235f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:56 +0000
Subject: [PATCH 72/81] fix: dmrg refused complex operators

---
 sources/dmrg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 3a9acd8..ee6d715 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -237,7 +237,7 @@ struct dmrg_2sites_update
 btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil, bMPS &in_out_state,
                            const dmrg_options &options, benv_holder &Env, dmrg_logger &logger)
 {
-	auto norm = contract(in_out_state, in_out_state).item().toDouble();
+	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
 	if (norm == 0 or norm < 1e-15)
 		throw std::invalid_argument("initial state has zero norm!"); // same test as without conservation laws.
 	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
@@ -301,7 +301,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
                                  const dmrg_options &options, env_holder &Env, dmrg_logger &logger)
 {
 	// TODO check for non-zero input.
-	auto norm = contract(in_out_state, in_out_state).item().toDouble();
+	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
 	if (norm == 0 or norm < 1e-15)
 		throw std::invalid_argument("initial state has zero norm!"); // this test is less than ideal.
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
@@ -581,7 +581,7 @@ std::tuple<Tensor, Tensor, Tensor> eig2x2Mat_impl(const Tensor &a0, const Tensor
 	auto delt = (E0 - a1);
 	auto o_coeff = sqrt(delt / (-crit)); // from arxiv.org/pdf/1908.03795.pdf
 	// fmt::print("O {}\n\n",o_coeff);
-	bool zero_o = (((o_coeff + E0) == E0).item()).toBool() or std::isnan(o_coeff.item().toDouble());
+	bool zero_o = (((o_coeff + E0) == E0).item()).toBool() or o_coeff.isnan().any().item().toBool();
 	auto n_coeff = (b * o_coeff) / (delt); // can't use o^2+n^2 = 1: loose important phase information that way.
 	if (zero_o)
 	{
-- 
2.43.0


From 6081c10a79e948e91727c39d5f1b787f5dd4f699 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 73/81] fix: views, shapes and writes at positions below -1
 gave malformed tensors or read out of bounds

Only -1 stands for a whole dimension, other negative positions are now refused like those that are too large.
---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 8a9b401..3274808 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -507,7 +507,7 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 		auto it_size = sizes.begin();
 		while (it_dims != dims.end())
 		{
-			size_compat &= *it_dims < *it_size or *it_dims == -1;
+			size_compat &= (*it_dims >= 0 and *it_dims < *it_size) or *it_dims == -1;
 			++it_dims;
 			++it_size;
 		}
-- 
2.43.0


From ccedca8c22adb74b51a7e47fb0acb2e31fd7ca1d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 74/81] fix: permute and transpose wrote out of bounds for
 dimensions that the tensor does not have

Lists which are not permutations of the dimensions are refused, also when the tensor has no block.
---
 sources/btensor.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 3274808..cb13fbc 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1802,11 +1802,20 @@ btensor btensor::permute(torch::IntArrayRef in_permutation) const
 	block_list_t::content_t out_block_list; // unordered.
 	out_block_list.reserve(blocks_list.size());
 	index_list out_section_by_dim(rank);
-	assert(in_permutation.size() == rank);
+	if (in_permutation.size() != rank)
+		throw std::invalid_argument(
+		    fmt::format("permutation of {} dimensions applied to a tensor of rank {}", in_permutation.size(), rank));
 	std::vector<int64_t> permutation(rank);
 	// turn it into a positive indexed permutation.
 	std::transform(in_permutation.begin(), in_permutation.end(), permutation.begin(),
 	               [rank = this->rank](auto &&x) { return rank * (x < 0) + x; });
+	{
+		auto sorted = permutation;
+		std::sort(sorted.begin(), sorted.end());
+		for (int64_t i = 0; i < static_cast<int64_t>(rank); ++i)
+			if (sorted[i] != i)
+				throw std::invalid_argument(fmt::format("{} isn't a permutation of {} dimensions", in_permutation, rank));
+	}
 	// permute the tensors and their position in the block matrix
 	for (size_t i = 0; i < rank; ++i)
 	{
@@ -1995,6 +2004,8 @@ btensor btensor::transpose(int64_t dim0, int64_t dim1) const
 	// convert to a permutation? That's the simplest option for me.
 	dim0 = rank * (dim0 < 0) + dim0;
 	dim1 = rank * (dim1 < 0) + dim1;
+	if (dim0 < 0 or dim1 < 0 or dim0 >= static_cast<int64_t>(rank) or dim1 >= static_cast<int64_t>(rank))
+		throw std::invalid_argument(fmt::format("transposed dimensions out of range for a tensor of rank {}", rank));
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
@@ -2006,6 +2017,8 @@ btensor &btensor::transpose_(int64_t dim0, int64_t dim1)
 	// convert to a permutation? That's the simplest option for me.
 	dim0 = rank * (dim0 < 0) + dim0;
 	dim1 = rank * (dim1 < 0) + dim1;
+	if (dim0 < 0 or dim1 < 0 or dim0 >= static_cast<int64_t>(rank) or dim1 >= static_cast<int64_t>(rank))
+		throw std::invalid_argument(fmt::format("transposed dimensions out of range for a tensor of rank {}", rank));
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
-- 
2.43.0


From c5912cda6ce67deb26b3f03f3fe5af7fc5f5a566 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 75/81] fix: reshape of rank 0 tensors and with invalid groups
 of indices read out of bounds

Groups beyond the rank of the tensor or in decreasing order are refused. An empty group is a dimension of one element.
---
 sources/btensor.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index cb13fbc..57296ad 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2966,7 +2966,7 @@ btensor::index_list new_block_shape(torch::IntArrayRef index_groups, btensor::co
 	auto index_it = index_groups.begin() + 1;
 	for (auto i = index_groups.front(); i < old_rank; ++i)
 	{
-		if (i >= (*index_it))
+		while (i >= (*index_it)) // there can be groups of no index.
 		{
 			++out_it;
 			++index_it;
@@ -3088,6 +3088,16 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 {
 	using namespace reshape_helpers;
 	size_t out_rank = index_groups.size() + 1;
+	{
+		int64_t previous = 0;
+		for (auto group : index_groups)
+		{
+			if (group < previous or group > static_cast<int64_t>(rank))
+				throw std::invalid_argument(
+				    fmt::format("index groups {} aren't increasing positions in a tensor of rank {}", index_groups, rank));
+			previous = group;
+		}
+	}
 	// make the information about the grouping explicit. The begining of the first group and the end of the last is
 	// not explicitly present in the input supplied (it's always 0 and the rank respectivily)
 	std::vector<int64_t> m_index_group(out_rank + 1);
@@ -3099,7 +3109,8 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 	// constructor to initialize this, and modification to the view subclasses to make use of this. Would upgrade
 	// them from bidirectionnal to random access.
 	auto addresses = btensor::index_list(sections_by_dim.size(), 0);
-	std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
+	if (rank > 1)
+		std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
 
 	auto out_sections_by_dim = reshape_sections_by_dim(m_index_group, out_rank, sections_by_dim);
 	auto out_size = std::reduce(out_sections_by_dim.begin(), out_sections_by_dim.end());
-- 
2.43.0


From b6e99fa141747e97d90d41fd86546fd398b466b2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:57:34 +0000
Subject: [PATCH 76/81] fix: squeeze of a dimension that the tensor does not
 have read out of bounds

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 57296ad..f6ecff1 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2189,6 +2189,8 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 }
 btensor &btensor::squeeze_(int64_t dim)
 {
+	if (dim < 0 or dim >= static_cast<int64_t>(rank))
+		throw std::invalid_argument(fmt::format("dimension {} out of range for a tensor of rank {}", dim, rank));
 	if (section_number(dim) == 1 and section_size(dim, 0) == 1)
 	{ // do the squeeze
 		std::vector<int64_t> res(this->dim(), -1);
-- 
2.43.0


From f5bd8203a617a8921111a127243927b5195d1c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:47 +0000
Subject: [PATCH 77/81] fix: shifting charges by one of the tensor's own
 charges shifted by changing amounts

---
 sources/btensor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f6ecff1..4e1fce4 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2251,8 +2251,9 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
-	shift_impl(shift, dim);
-	selection_rule.value *= shift;
+	const any_quantity value = shift; // the shift can be one of the charges of this tensor.
+	shift_impl(value, dim);
+	selection_rule.value *= value;
 	return *this;
 }
 
@@ -2260,7 +2261,7 @@ btensor &btensor::non_conserving_cval_shift_(any_quantity_cref shift, int64_t di
 {
 	if (blocks_list.size() != 0)
 		throw std::logic_error("This transformation can only be applied to empty btensors");
-	shift_impl(shift, dim);
+	shift_impl(any_quantity(shift), dim); // the shift can be one of the charges of this tensor.
 	return *this;
 }
 
-- 
2.43.0


From 90661edd95b2027dd65af0429847caa621628e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:17 +0000
Subject: [PATCH 78/81] fix: allclose measured the blocks that only its second
 argument stores against themselves

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 4e1fce4..c2bd23b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2639,7 +2639,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 		}
 		else if (a_index > b_index)
 		{
-			is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+			is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 			++b_it;
 		}
 		else // equal index
@@ -2661,7 +2661,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 	{
 		const auto &b_index = std::get<0>(*b_it);
 		const auto &b_tens = std::get<1>(*b_it);
-		is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+		is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 		++b_it;
 	}
 	return is_allclose;
-- 
2.43.0


From 5879971bc10a929a23c432c00f9ea65fd3a484a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:17 +0000
Subject: [PATCH 79/81] fix: results computed from single precision block
 tensors announced another element type than that of their blocks

---
 sources/btensor.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c2bd23b..a3db4e7 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -936,7 +936,7 @@ btensor btensor::mul(Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
+	auto out_dtype = torch::empty({0}, _options).mul(other).scalar_type();
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other),
@@ -1002,7 +1002,7 @@ btensor btensor::div(btensor::Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
+	auto out_dtype = torch::empty({0}, _options).div(other).scalar_type();
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other),
@@ -1351,7 +1351,7 @@ btensor btensor::bmm(const btensor &mat) const
 	// A cheap workaround is to increase the rank by one with a trivial dimension
 	if (this->rank == 2 and mat.rank == 2)
 	{
-		auto triv_shape = btensor({{{1, selection_rule->neutral()}}}, selection_rule->neutral());
+		auto triv_shape = btensor({{{1, selection_rule->neutral()}}}, selection_rule->neutral(), options());
 		auto new_this = this->reshape_as(disambiguated_shape_from({triv_shape, *this}));
 		auto new_mat = mat.reshape_as(disambiguated_shape_from({triv_shape, mat}));
 		return new_this.bmm(new_mat).squeeze_(0);
@@ -1366,7 +1366,7 @@ btensor btensor::bmm(const btensor &mat) const
 	mat_inds.back() = -1;
 	auto [comp_mask, new_sections_by_dim, new_sections_sizes, new_cvals, out_selr] = mul_helpers::shape_compute(
 	    false, rank - 2, rank - 2, this->shape_from(batch_shape_inds), mat.shape_from(batch_shape_inds));
-	btensor batch_shape(new_sections_by_dim, new_cvals, new_sections_sizes, selection_rule->neutral());
+	btensor batch_shape(new_sections_by_dim, new_cvals, new_sections_sizes, selection_rule->neutral(), options());
 	auto out = quantit::shape_from(
 	    batch_shape, this->shape_from(this_inds),
 	    mat.shape_from(mat_inds)); // ambiguity because of the in-class context lifted by the QuantiT namespace;
@@ -1727,7 +1727,9 @@ btensor btensor::broadcast_operation(const btensor &other, F &&f) const
 	auto dtype = torch::typeMetaToScalarType(options().dtype());
 	if constexpr (promote)
 	{
-		dtype = promote_types(options().dtype(), other.options().dtype());
+		// same rules as the blocks: a rank 0 tensor doesn't change the precision of the other
+		dtype = torch::result_type(torch::empty(std::vector<int64_t>(rank, 0), options()),
+		                           torch::empty(std::vector<int64_t>(other.rank, 0), other.options()));
 	}
 	// fmt::print("new_sections_by_dim {}\n", new_sections_by_dim);
 	// fmt::print("new_cvals {}\n", new_cvals);
@@ -2746,9 +2748,7 @@ size_t get_weakcount(const torch::Tensor &tens)
 // give a common type to all the blocks, and the options, of the result of an operation on tensors of different types.
 static void unify_block_types(btensor::block_list_t &blocks, c10::TensorOptions &options)
 {
-	if (blocks.begin() == blocks.end())
-		return;
-	auto type = std::get<1>(*blocks.begin()).scalar_type();
+	auto type = torch::typeMetaToScalarType(options.dtype());
 	for (const auto &a : blocks)
 	{
 		type = at::promote_types(type, std::get<1>(a).scalar_type());
@@ -2757,7 +2757,7 @@ static void unify_block_types(btensor::block_list_t &blocks, c10::TensorOptions
 	{
 		std::get<1>(a) = std::get<1>(a).to(type); // does nothing if it's already of that type.
 	}
-	options = std::get<1>(*blocks.begin()).options();
+	options = options.dtype(type);
 }
 
 btensor btensor::add(const btensor &other, Scalar alpha) const
-- 
2.43.0


From d547fd423ee75ff2c9c4aeebd3d3581e63c8e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:43 +0000
Subject: [PATCH 80/81] fix: block of an index out of range read out of bounds
 or stored a block that the tensor cannot have

---
 sources/btensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a3db4e7..ceb4d21 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -387,6 +387,12 @@ torch::Tensor &btensor::block(const index_list &block_index) // create the block
 {
 	if (block_index.size() != rank)
 		throw std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+	for (size_t i = 0; i < rank; ++i)
+	{
+		if (block_index[i] < 0 or block_index[i] >= static_cast<int64_t>(sections_by_dim[i]))
+			throw std::invalid_argument(
+			    fmt::format("block index {} out of range for the sections {}", block_index, sections_by_dim));
+	}
 	if (!block_conservation_rule_test(block_index))
 	{
 		auto message = fmt::format("block index {} not allowed by selection rule. {} != {}", block_index,
-- 
2.43.0


From 8eff2d8cab81eb66d6e294e84482e132eb748458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:50 +0000
Subject: [PATCH 81/81] fix: block tensors made from plain values announced
 another element type than that of their blocks

---
 sources/btensor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ceb4d21..d6de515 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2616,15 +2616,15 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 btensor from_basic_tensor(const btensor::vec_list_t &shape_spec, any_quantity selection_rul,
                           const torch::Tensor &values, const torch::Scalar cutoff, c10::TensorOptions opt)
 {
-	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, opt);
-	from_basic_impl(shape, values, cutoff);
+	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, opt.has_dtype() ? opt : opt.dtype(values.dtype()));
+	from_basic_impl(shape, values.to(shape.options().dtype()), cutoff);
 	return shape;
 }
 btensor from_basic_tensor_like(const btensor &shape, const torch::Tensor &values, const torch::Scalar cutoff,
                                c10::TensorOptions opt)
 {
-	auto out = quantit::sparse_zeros_like(shape, opt);
-	from_basic_impl(out, values, cutoff);
+	auto out = quantit::sparse_zeros_like(shape, opt.has_dtype() ? opt : opt.dtype(values.dtype()));
+	from_basic_impl(out, values.to(out.options().dtype()), cutoff);
 	return out;
 }
 bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool equal_nan)
-- 
2.43.0

