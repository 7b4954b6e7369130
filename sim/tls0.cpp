// thread-locals of the code under test are linked between those of tls0.cpp and tls1.cpp
extern __thread char dsim_td0, dsim_tb0;
__thread char dsim_td0 = 1;
__thread char dsim_tb0;
