C='ink/color/color.cc'; CS='ink/color/color_space.cc'
B=[
('c-dec','C02',CS,'if (encoded_value < kSrgbD) {','if (encoded_value < 0.5 * kSrgbD) {'),
('c-row','C03',CS,'0, 3, 6, 1, 4,\n                                                               7, 2, 5, 8','0, 3, 6, 1, 4,\n                                                               5, 2, 7, 8'),
('c-enc','C02',CS,'if (linear_value < kSrgbC * kSrgbD) {','if (linear_value < kSrgbD) {'),
('c-coef','C03',CS,'-0.0761839369220757','-0.0762839369220757'),
]
