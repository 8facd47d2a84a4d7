From d2bc6f78ed5210cb3d264af477e289b22cada9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 01/20] fix: UTF-8 decoder returns before its surrogate check

UtfConversion<char8_t>::To32 returned from every branch, so the
IsInvalid check after them was never reached and bytes spelling a
surrogate (e.g. ED A0 80) were decoded instead of being refused.
---
 Source/Strings/Conversion.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Source/Strings/Conversion.cpp b/Source/Strings/Conversion.cpp
index 7675ad1..167f7fc 100644
--- a/Source/Strings/Conversion.cpp
+++ b/Source/Strings/Conversion.cpp
@@ -120,18 +120,19 @@ UtfConversion<char8_t>
 			const vuint8_t* cs = reinterpret_cast<const vuint8_t*>(source);
 			vuint32_t& d = reinterpret_cast<vuint32_t&>(dest);
 			if (sourceLength <= 0) return -1;
+			vint result = -1;
 
 			if (cs[0] < 0b10000000U)
 			{
 				d = cs[0];
-				return 1;
+				result = 1;
 			}
 			else if (cs[0] < 0b11100000U)
 			{
 				if (sourceLength < 2) return -1;
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00011111U) << 6) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U));
-				return 2;
+				result = 2;
 			}
 			else if (cs[0] < 0b11110000U)
 			{
@@ -139,7 +140,7 @@ UtfConversion<char8_t>
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00001111U) << 12) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U));
-				return 3;
+				result = 3;
 			}
 			else if (cs[0] < 0b11111000U)
 			{
@@ -148,7 +149,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U));
-				return 4;
+				result = 4;
 			}
 			else if (cs[0] < 0b11111100U)
 			{
@@ -158,7 +159,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U));
-				return 5;
+				result = 5;
 			}
 			else
 			{
@@ -169,10 +170,10 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[5]) & 0b00111111U));
-				return 6;
+				result = 6;
 			}
 			if (IsInvalid(dest)) return -1;
-			return 1;
+			return result;
 		}
 
 /***********************************************************************
-- 
2.43.0


From 8b1b8fe9e248d1a44a5dd81859783063d3194808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:55 +0000
Subject: [PATCH 02/20] fix: ObjectString::Sub and Remove accept negative
 counts

Only index+count was checked, so a negative count passed the range check:
Sub returned an empty string and Remove returned a longer string with
duplicated characters instead of raising an error.
---
 Source/Strings/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index 3e0f206..19d0843 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -462,7 +462,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -480,7 +480,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From 74471b9f0376c7ef478fd424493523abece833fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:50 +0000
Subject: [PATCH 03/20] fix: wlower and wupper truncate wide characters to char

_wcslwr_s and _wcsupr_s cast the converted character to char, so every
character above U+007F was corrupted (U+1000 became U+0000).
---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index f1f7204..5fa2a82 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -102,7 +102,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towlower(*buffer);
+			*buffer=(wchar_t)towlower(*buffer);
 			buffer++;
 		}
 	}
@@ -111,7 +111,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towupper(*buffer);
+			*buffer=(wchar_t)towupper(*buffer);
 			buffer++;
 		}
 	}
-- 
2.43.0


From 7609c8e97cde7b8d3ec061ac236a86a76de3d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:53 +0000
Subject: [PATCH 04/20] fix: ListBase::RemoveRange accepts a negative count

RemoveRange(index, n) with a negative n passed the range check whenever index + n was
inside the list, then moved elements past the end of the buffer and enlarged the count.
---
 Source/Collections/List.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index fb6d43b..d46f7c2 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -522,7 +522,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(index + _count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && _count <= this->count - index, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
-- 
2.43.0


From 95da98de09286ca11aa0915c977e09dea08b2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:53 +0000
Subject: [PATCH 05/20] fix: copying a SortedList empties the copied list

The copy constructor cast away const and moved the source's storage into the copy.
---
 Source/Collections/List.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index d46f7c2..b23df39 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -779,8 +779,11 @@ SortedList
 			SortedList<T>& operator=(SortedList<T> && _move) = default;
 
 			SortedList(const SortedList<T>&xs)
-				: ListBase<T>(std::move(const_cast<ListBase<T>&>(static_cast<const ListBase<T>&>(xs))))
 			{
+				this->buffer = memory_management::AllocateBuffer<T>(xs.count);
+				memory_management::CallCopyCtors(this->buffer, xs.buffer, xs.count);
+				this->count = xs.count;
+				this->capacity = xs.count;
 			}
 
 			/// <summary>Test does the list contain a value or not.</summary>
-- 
2.43.0


From 9aae3135b92802276c02f80e0abce7617da28093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:06 +0000
Subject: [PATCH 06/20] fix: inserting an element of a list into the same list
 reads freed or shifted storage

List::Insert/Add and SortedList::Add moved or reallocated the elements before copying the
item, so xs.Add(xs[0]) read freed memory when the list grew and xs.Insert(0, xs[1])
copied the wrong element otherwise.
---
 Source/Collections/List.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index b23df39..27f0dc9 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -605,8 +605,9 @@ List
 			vint Insert(vint index, const T& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				T copied(item);
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
+				memory_management::CallMoveCtors(&this->buffer[index], &copied, 1);
 				return index;
 			}
 
@@ -729,8 +730,9 @@ SortedList
 			vint Insert(vint index, const T& item)
 			{
 				bool uninitialized = false;
+				T copied(item);
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
+				memory_management::CallMoveCtors(&this->buffer[index], &copied, 1);
 				return index;
 			}
 
-- 
2.43.0


From 33587a679326aa6d1fd33e7f6cfbc6b384fdccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:28 +0000
Subject: [PATCH 07/20] fix: Dictionary and Group enumerators cannot be reset
 or cloned

Reset always raised an error because it looked up position -1, and a clone taken in the
middle of an enumeration had no current element.
---
 Source/Collections/Dictionary.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 11cac3b..46e6fac 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -35,7 +35,7 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if(index<container->Count())
+					if(index>=0 && index<container->Count())
 					{
 						current = { container->Keys().Get(index),container->Values().Get(index) };
 					}
@@ -45,6 +45,7 @@ namespace vl
 				{
 					container=_container;
 					index=_index;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
@@ -288,10 +289,10 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if (keyIndex < container->Count())
+					if (keyIndex >= 0 && keyIndex < container->Count())
 					{
 						const ValueContainer& values = container->GetByIndex(keyIndex);
-						if (valueIndex < values.Count())
+						if (valueIndex >= 0 && valueIndex < values.Count())
 						{
 							current = { container->Keys().Get(keyIndex) ,values.Get(valueIndex) };
 						}
@@ -303,6 +304,7 @@ namespace vl
 					container=_container;
 					keyIndex=_keyIndex;
 					valueIndex=_valueIndex;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
-- 
2.43.0


From 64a796cab53c8ecd68439bd2c572756b8cba12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:42 +0000
Subject: [PATCH 08/20] fix: Group::Remove reports true for a value that is not
 there

---
 Source/Collections/Dictionary.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 46e6fac..238a7ae 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -580,7 +580,10 @@ namespace vl
 				if(index!=-1)
 				{
 					auto target=values[index];
-					target->Remove(value);
+					if(!target->Remove(value))
+					{
+						return false;
+					}
 					if(target->Count()==0)
 					{
 						keys.RemoveAt(index);
-- 
2.43.0


From 16b40175cef3abc495dde88c032d22c2520e8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 09/20] fix: Skip followed by Take miscounts when nothing is
 taken or the skip count is negative

---
 Source/Collections/OperationSequence.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index b0a1b4b..1c1522b 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -83,7 +83,7 @@ Skip
 		public:
 			SkipEnumerator(IEnumerator<T>* _enumerator, vint _count, bool _skipped=false)
 				:enumerator(_enumerator)
-				,count(_count)
+				,count(_count < 0 ? 0 : _count)
 				,skipped(_skipped)
 			{
 			}
@@ -105,7 +105,7 @@ Skip
 
 			vint Index()const override
 			{
-				return enumerator->Index()-count;
+				return skipped ? enumerator->Index()-count : -1;
 			}
 
 			bool Next()override
-- 
2.43.0


From 5b2d069a2c29419c961a87ee81ef169e7240953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 10/20] fix: Ptr::Detach keeps owning an object that is still
 shared

---
 Source/Primitives/Pointer.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 2e0e034..163ed90 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -96,15 +96,18 @@ Ptr
 
 		void Dec(bool deleteIfZero = true)
 		{
-			if (counter)
+			auto releasedCounter = counter;
+			auto releasedReference = originalReference;
+			auto releasedDestructor = originalDestructor;
+			SetEmptyNoIncDec();
+			if (releasedCounter)
 			{
-				if (DECRC(counter) == 0)
+				if (DECRC(releasedCounter) == 0)
 				{
 					if (deleteIfZero)
 					{
-						originalDestructor(counter, originalReference);
+						releasedDestructor(releasedCounter, releasedReference);
 					}
-					SetEmptyNoIncDec();
 				}
 			}
 		}
@@ -231,7 +234,6 @@ Ptr
 		Ptr<T>& operator=(std::nullptr_t)
 		{
 			Dec();
-			SetEmptyNoIncDec();
 			return *this;
 		}
 
-- 
2.43.0


From fe72536bb49beab733930f101f375df0258332c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:50 +0000
Subject: [PATCH 11/20] fix: assigning a pointer that the released object owns
 reads freed memory

---
 Source/Primitives/Pointer.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 163ed90..c0d5d00 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -244,7 +244,7 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				Ptr<T> previous(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -261,7 +261,7 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				Ptr<T> previous(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -343,13 +343,15 @@ ComPtr
 
 		void Dec()
 		{
-			if (counter)
+			auto releasedCounter = counter;
+			auto releasedReference = reference;
+			SetEmpty();
+			if (releasedCounter)
 			{
-				if (DECRC(counter) == 0)
+				if (DECRC(releasedCounter) == 0)
 				{
-					delete counter;
-					reference->Release();
-					SetEmpty();
+					delete releasedCounter;
+					releasedReference->Release();
 				}
 			}
 		}
@@ -405,7 +407,6 @@ ComPtr
 		ComPtr<T>& operator=(std::nullptr_t)
 		{
 			Dec();
-			SetEmpty();
 			return *this;
 		}
 
@@ -428,7 +429,7 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				ComPtr<T> previous(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				Inc();
@@ -440,7 +441,7 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				ComPtr<T> previous(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				pointer.SetEmpty();
-- 
2.43.0


From 2eae4e09d3e53d4229ce1670b1cd96f71f7de935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:33 +0000
Subject: [PATCH 12/20] fix: Event moves its arguments into the first handler,
 the others receive moved-from values

---
 Source/Primitives/Event.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 7dfc3ed..9ff6587 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -98,7 +98,15 @@ namespace vl
 		{
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				// every handler receives the same arguments, so they can only be moved if they cannot be passed in another way
+				if constexpr (std::is_invocable_v<const Func<void(TArgs...)>&, TArgs2&...>)
+				{
+					handlers[i]->function(args...);
+				}
+				else
+				{
+					handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				}
 			}
 		}
 	};
-- 
2.43.0


From ace5bfdfdb707667bd76f7a63d3e8c1ac22dd584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:50 +0000
Subject: [PATCH 13/20] fix: Event skips an attached handler when a handler is
 removed during firing

---
 Source/Primitives/Event.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 9ff6587..020d5e6 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -96,16 +96,19 @@ namespace vl
 		template<typename... TArgs2>
 		void operator()(TArgs2&& ...args)const
 		{
-			for(vint i = 0; i < handlers.Count(); i++)
+			// a handler could add or remove handlers
+			collections::SortedList<Ptr<EventHandlerImpl>> firing(handlers);
+			for(vint i = 0; i < firing.Count(); i++)
 			{
+				if (!firing[i]->attached) continue;
 				// every handler receives the same arguments, so they can only be moved if they cannot be passed in another way
 				if constexpr (std::is_invocable_v<const Func<void(TArgs...)>&, TArgs2&...>)
 				{
-					handlers[i]->function(args...);
+					firing[i]->function(args...);
 				}
 				else
 				{
-					handlers[i]->function(std::forward<TArgs2&&>(args)...);
+					firing[i]->function(std::forward<TArgs2&&>(args)...);
 				}
 			}
 		}
-- 
2.43.0


From 3060269ac773b1686d0197817836939d28cfcbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:50 +0000
Subject: [PATCH 14/20] fix: assigning Nullable<T>::Value() to itself copies a
 destroyed value

---
 Source/Primitives/Nullable.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 1147677..77002e2 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -105,6 +105,7 @@ namespace vl
 				}
 			}
 
+			if (initialized && std::addressof(object) == std::addressof(value)) return *this;
 			Reset();
 			new (&object)T(value);
 			initialized = true;
-- 
2.43.0


From 266cb10854df08740970e15d7d2d9af747df8e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:50 +0000
Subject: [PATCH 15/20] fix: Variant stores over-aligned elements at a
 misaligned address

---
 Source/Primitives/Variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 2cfe3ae..0401939 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -275,7 +275,7 @@ namespace vl
 
 		static constexpr std::size_t	MaxSize = variant_internal::MaxOf(sizeof(TElements)...);
 		vint							index = -1;
-		char							buffer[MaxSize];
+		alignas(TElements...) char		buffer[MaxSize];
 
 	public:
 		Variant()
-- 
2.43.0


From 8ec667768c3260d3548c25990459a73ec1833315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:50 +0000
Subject: [PATCH 16/20] fix: Variant::TryApply ignores a callback that takes a
 const reference

---
 Source/Primitives/Variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 0401939..af9f536 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -503,7 +503,7 @@ namespace vl
 			bool result = true;
 			Apply(Overloading(
 				std::forward<TCallback&&>(callback),
-				[&result](auto&&) { result = false; }
+				[&result](const auto&, auto&& ...) { result = false; }
 				));
 			return result;
 		}
-- 
2.43.0


From c6e986f15d28765908ef4419a1aa268427e1c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:40 +0000
Subject: [PATCH 17/20] fix: PushOnlyAllocator::Get returns an invalid pointer
 for a negative index

---
 Source/Collections/List.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 27f0dc9..aff3da1 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -870,7 +870,7 @@ Special Containers
 
 			T* Get(vint index)
 			{
-				if (index >= allocatedSize)
+				if (index < 0 || index >= allocatedSize)
 				{
 					return 0;
 				}
-- 
2.43.0


From e7512672ae296134d84096731f9af3da9b14fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:28 +0000
Subject: [PATCH 18/20] fix: dates before 1970 do not round-trip and compare as
 later

---
 Source/Primitives/DateTime.Linux.cpp | 11 +++++++++--
 Source/Primitives/DateTime.h         |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index 8cd4277..1a2eb5c 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -30,8 +30,15 @@ DateTime
 
 		static void OSInternalToTime(vuint64_t osInternal, time_t& timer, vint& milliseconds)
 		{
-			timer = (time_t)(osInternal / 1000);
-			milliseconds = (vint)(osInternal % 1000);
+			// osInternal is negative when the time is before 1970
+			vint64_t total = (vint64_t)osInternal;
+			timer = (time_t)(total / 1000);
+			milliseconds = (vint)(total % 1000);
+			if (milliseconds < 0)
+			{
+				timer--;
+				milliseconds += 1000;
+			}
 		}
 
 		static vuint64_t ConvertTMTToOSInternal(tm* timeinfo, vint milliseconds)
diff --git a/Source/Primitives/DateTime.h b/Source/Primitives/DateTime.h
index 05266b7..5e39b35 100644
--- a/Source/Primitives/DateTime.h
+++ b/Source/Primitives/DateTime.h
@@ -92,7 +92,8 @@ Date and Time
 
 		std::strong_ordering operator<=>(const DateTime& value) const
 		{
-			return osInternal <=> value.osInternal;
+			// in Linux and macOS, osInternal is negative when the time is before 1970
+			return (vint64_t)osInternal <=> (vint64_t)value.osInternal;
 		}
 
 		bool operator==(const DateTime& value) const
-- 
2.43.0


From a1639adc0e0ff9d54aa9990218b206721d7996e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:48 +0000
Subject: [PATCH 19/20] fix: LoremIpsumParagraph always ends with a period and
 has no empty sentence

A clause that used up the requested length was followed by ", " or ". " and
the paragraph ended there; with one character left an empty sentence was added.
---
 Source/Strings/LoremIpsum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Strings/LoremIpsum.cpp b/Source/Strings/LoremIpsum.cpp
index 8e8d555..6bf08de 100644
--- a/Source/Strings/LoremIpsum.cpp
+++ b/Source/Strings/LoremIpsum.cpp
@@ -140,7 +140,7 @@ namespace vl
 			}
 
 			result += LoremIpsum(length, casing);
-			if (comma == 0)
+			if (comma == 0 || result.Length() + 3 >= bestLength)
 			{
 				result += L".";
 				break;
-- 
2.43.0


From 672779ab713b551f91bdc346a9a1120fca14ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:25 +0000
Subject: [PATCH 20/20] fix: atof_test and wtof_test refuse the empty text

---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index 5fa2a82..dfe0091 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -194,7 +194,7 @@ namespace vl
 	{
 		char* endptr = 0;
 		double result = strtod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
@@ -202,7 +202,7 @@ namespace vl
 	{
 		wchar_t* endptr = 0;
 		double result = wcstod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
-- 
2.43.0

