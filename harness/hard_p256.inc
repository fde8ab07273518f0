"6f87e1", // 25 failures
"2468acf13579bde02468acf13579bde02468acf1617e231", // 24 failures
"2468acf13579bde02468acf13579bde02468acf137a2a5f", // 24 failures
"123456789abcdef0123456789abcdef012345678c604ba3", // 24 failures
"2468acf13579bde02468acf13579bde02468acf17079e4e", // 23 failures
"123456789abcdef0123456789abcdef012345678e414e09", // 23 failures
"123456789abcdef0123456789abcdef012345678c93c079", // 23 failures
"2468acf13579bde02468acf13579bde02468acf166049ea", // 22 failures
"2468acf13579bde02468acf13579bde02468acf165614f3", // 22 failures
"2468acf13579bde02468acf13579bde02468acf15a8caaf", // 22 failures
