#pragma once
/* tiny stand-in for Unity, only used to run the repository's own C tests */
#include <stdio.h>
#include <stdlib.h>
#define UNITY_FAIL_() do { printf("%s:%d: FAIL\n", __FILE__, __LINE__); exit(1); } while (0)
#define TEST_ASSERT(x) do { if (!(x)) UNITY_FAIL_(); } while (0)
#define TEST_ASSERT_TRUE(x) TEST_ASSERT(x)
#define TEST_ASSERT_FALSE(x) TEST_ASSERT(!(x))
#define TEST_ASSERT_NULL(x) TEST_ASSERT(!(x))
#define TEST_ASSERT_NOT_NULL(x) TEST_ASSERT(!!(x))
#define TEST_ASSERT_EQUAL(a, b) TEST_ASSERT((long long)(a) == (long long)(b))
#define TEST_ASSERT_NOT_EQUAL(a, b) TEST_ASSERT((long long)(a) != (long long)(b))
#define TEST_ASSERT_EQUAL_PTR(a, b) TEST_ASSERT((const void*)(a) == (const void*)(b))
#define TEST_ASSERT_EQUAL_size_t(a, b) TEST_ASSERT((a) == (b))
#define TEST_ASSERT_GREATER_THAN(t, a) TEST_ASSERT((a) > (t))
#define RUN_TEST(f) do { f(); } while (0)
#define UnityBegin(n)
#define UnityEnd() 0
#define UNITY_BEGIN() 0
#define UNITY_END() 0
