W(D50_2Degree, 0.9642, 1., 0.8251, 0.3456, 0.3585)
W(D55_2Degree, 0.9568, 1., 0.9214, 0.3324, 0.3474)
W(D65_2Degree, 0.9504, 1., 1.0888, 0.3127, 0.3290)
W(D75_2Degree, 0.9497, 1., 1.2264, 0.2990, 0.3148)
W(A_2Degree, 1.0985, 1., 0.3558, 0.4475, 0.4074)
W(B_2Degree, 0.9909, 1., 0.8531, 0.3484, 0.3516)
W(C_2Degree, 0.9807, 1., 1.1823, 0.3100, 0.3161)
W(E_2Degree, 1.0, 1., 1.0, 0.3333, 0.3333)
W(F1_2Degree, 0.9283, 1., 1.0366, 0.3130, 0.3372)
W(F2_2Degree, 0.9918, 1., 0.6739, 0.3720, 0.3751)
W(F3_2Degree, 1.0375, 1., 0.4986, 0.4090, 0.3943)
W(F4_2Degree, 1.0914, 1., 0.3881, 0.4401, 0.4033)
W(F5_2Degree, 0.9087, 1., 0.9872, 0.3137, 0.3453)
W(F6_2Degree, 0.9730, 1., 0.6019, 0.3778, 0.3883)
W(F7_2Degree, 0.9504, 1., 1.0875, 0.3128, 0.3291)
W(F8_2Degree, 0.9641, 1., 0.8233, 0.3458, 0.3587)
W(F9_2Degree, 1.0036, 1., 0.6786, 0.3741, 0.3728)
W(F10_2Degree, 0.9617, 1., 0.8171, 0.3460, 0.3598)
W(F11_2Degree, 1.0096, 1., 0.6437, 0.3805, 0.3768)
W(F12_2Degree, 1.0804, 1., 0.3922, 0.4369, 0.4044)
W(D50_10Degree, 0.9672, 1., 0.8142, 0.3477, 0.3595)
W(D55_10Degree, 0.9579, 1., 0.9092, 0.3341, 0.3487)
W(D65_10Degree, 0.9481, 1., 1.0730, 0.3138, 0.3310)
W(D75_10Degree, 0.9441, 1., 1.2064, 0.2996, 0.3174)
W(A_10Degree, 1.1114, 1., 0.3520, 0.4511, 0.4059)
W(B_10Degree, 0.9917, 1., 0.84349, 0.3497, 0.3527)
W(C_10Degree, 0.9728, 1., 1.1614, 0.3103, 0.3190)
W(E_10Degree, 1.0, 1., 1.0, 0.3333, 0.3333)
W(F1_10Degree, 0.9479, 1., 1.0319, 0.3181, 0.3355)
W(F2_10Degree, 1.0328, 1., 0.6902, 0.3792, 0.3672)
W(F3_10Degree, 1.0896, 1., 0.5196, 0.4175, 0.3832)
W(F4_10Degree, 1.1496, 1., 0.4096, 0.4492, 0.3907)
W(F5_10Degree, 0.9336, 1., 0.9863, 0.3197, 0.3424)
W(F6_10Degree, 1.0214, 1., 0.6207, 0.3865, 0.3784)
W(F7_10Degree, 0.9579, 1., 1.0768, 0.3156, 0.3295)
W(F8_10Degree, 0.9711, 1., 0.8113, 0.3490, 0.3594)
W(F9_10Degree, 1.0211, 1., 0.6782, 0.3782, 0.3704)
W(F10_10Degree, 0.9900, 1., 0.8313, 0.3509, 0.3544)
W(F11_10Degree, 1.0386, 1., 0.6562, 0.3854, 0.3710)
W(F12_10Degree, 1.1142, 1., 0.4035, 0.4425, 0.3971)
