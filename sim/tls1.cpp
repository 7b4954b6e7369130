extern __thread char dsim_td1, dsim_tb1;
__thread char dsim_td1 = 1;
__thread char dsim_tb1;
