// all valid t of SHA-512/t, spread over 16 groups
#if ALGO_T_GROUP == 0
	ONE_T(8) ONE_T(136) ONE_T(264) ONE_T(400)
#elif ALGO_T_GROUP == 1
	ONE_T(16) ONE_T(144) ONE_T(272) ONE_T(408)
#elif ALGO_T_GROUP == 2
	ONE_T(24) ONE_T(152) ONE_T(280) ONE_T(416)
#elif ALGO_T_GROUP == 3
	ONE_T(32) ONE_T(160) ONE_T(288) ONE_T(424)
#elif ALGO_T_GROUP == 4
	ONE_T(40) ONE_T(168) ONE_T(296) ONE_T(432)
#elif ALGO_T_GROUP == 5
	ONE_T(48) ONE_T(176) ONE_T(304) ONE_T(440)
#elif ALGO_T_GROUP == 6
	ONE_T(56) ONE_T(184) ONE_T(312) ONE_T(448)
#elif ALGO_T_GROUP == 7
	ONE_T(64) ONE_T(192) ONE_T(320) ONE_T(456)
#elif ALGO_T_GROUP == 8
	ONE_T(72) ONE_T(200) ONE_T(328) ONE_T(464)
#elif ALGO_T_GROUP == 9
	ONE_T(80) ONE_T(208) ONE_T(336) ONE_T(472)
#elif ALGO_T_GROUP == 10
	ONE_T(88) ONE_T(216) ONE_T(344) ONE_T(480)
#elif ALGO_T_GROUP == 11
	ONE_T(96) ONE_T(224) ONE_T(352) ONE_T(488)
#elif ALGO_T_GROUP == 12
	ONE_T(104) ONE_T(232) ONE_T(360) ONE_T(496)
#elif ALGO_T_GROUP == 13
	ONE_T(112) ONE_T(240) ONE_T(368) ONE_T(504)
#elif ALGO_T_GROUP == 14
	ONE_T(120) ONE_T(248) ONE_T(376) ONE_T(512)
#elif ALGO_T_GROUP == 15
	ONE_T(128) ONE_T(256) ONE_T(392)
#endif
