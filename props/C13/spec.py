SCOPE = "insertion sort (values, comparator, index carrying) of up to 8 arbitrary elements and merge sort of up to 10 (insertion runs of 1 to 4), up to 11 and 14 in the thorough run; SIMD sort and order of up to 4 lanes; arrays of up to 300 elements and 32 lanes are a bounded native exploration"
UNITS = [dict(src='sorts.cc')]
SECS = 3
