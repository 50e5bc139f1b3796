From 9eb9e0d69dfbf61eb6a79ce4fe33b2e984a4ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 01/36] fix: colour assignment must carry alpha and rgb colour
 space

---
 ColorMagic/spaces/cieluv.cpp         | 2 ++
 ColorMagic/spaces/cmyk.cpp           | 2 ++
 ColorMagic/spaces/grey_deepcolor.cpp | 2 ++
 ColorMagic/spaces/grey_truecolor.cpp | 2 ++
 ColorMagic/spaces/hcy.cpp            | 2 ++
 ColorMagic/spaces/hsi.cpp            | 2 ++
 ColorMagic/spaces/hsl.cpp            | 2 ++
 ColorMagic/spaces/hsv.cpp            | 2 ++
 ColorMagic/spaces/lab.cpp            | 2 ++
 ColorMagic/spaces/lch_ab.cpp         | 2 ++
 ColorMagic/spaces/lch_uv.cpp         | 2 ++
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 ++
 ColorMagic/spaces/rgb_truecolor.cpp  | 2 ++
 ColorMagic/spaces/xyy.cpp            | 2 ++
 ColorMagic/spaces/xyz.cpp            | 2 ++
 15 files changed, 30 insertions(+)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index ae81bb5..9bf0e3c 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -37,6 +37,8 @@ color_space::cieluv & color_space::cieluv::operator=(const cieluv & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/cmyk.cpp b/ColorMagic/spaces/cmyk.cpp
index cde475b..4fd936f 100644
--- a/ColorMagic/spaces/cmyk.cpp
+++ b/ColorMagic/spaces/cmyk.cpp
@@ -38,6 +38,8 @@ color_space::cmyk & color_space::cmyk::operator=(const cmyk & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/grey_deepcolor.cpp b/ColorMagic/spaces/grey_deepcolor.cpp
index ca35a4c..ce93e87 100644
--- a/ColorMagic/spaces/grey_deepcolor.cpp
+++ b/ColorMagic/spaces/grey_deepcolor.cpp
@@ -35,6 +35,8 @@ color_space::grey_deepcolor & color_space::grey_deepcolor::operator=(const color
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index 9906aa4..8ed1396 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -36,6 +36,8 @@ color_space::grey_truecolor & color_space::grey_truecolor::operator=(const color
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hcy.cpp b/ColorMagic/spaces/hcy.cpp
index 8c43534..22a798e 100644
--- a/ColorMagic/spaces/hcy.cpp
+++ b/ColorMagic/spaces/hcy.cpp
@@ -37,6 +37,8 @@ color_space::hcy & color_space::hcy::operator=(const color_space::hcy & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hsi.cpp b/ColorMagic/spaces/hsi.cpp
index ac6edf1..71f840f 100644
--- a/ColorMagic/spaces/hsi.cpp
+++ b/ColorMagic/spaces/hsi.cpp
@@ -37,6 +37,8 @@ color_space::hsi & color_space::hsi::operator=(const color_space::hsi & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hsl.cpp b/ColorMagic/spaces/hsl.cpp
index 2e5aa7b..4892c98 100644
--- a/ColorMagic/spaces/hsl.cpp
+++ b/ColorMagic/spaces/hsl.cpp
@@ -37,6 +37,8 @@ color_space::hsl & color_space::hsl::operator=(const color_space::hsl & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/hsv.cpp b/ColorMagic/spaces/hsv.cpp
index b97c704..5f7968a 100644
--- a/ColorMagic/spaces/hsv.cpp
+++ b/ColorMagic/spaces/hsv.cpp
@@ -37,6 +37,8 @@ color_space::hsv & color_space::hsv::operator=(const color_space::hsv & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/lab.cpp b/ColorMagic/spaces/lab.cpp
index 3d24dfe..c0f1934 100644
--- a/ColorMagic/spaces/lab.cpp
+++ b/ColorMagic/spaces/lab.cpp
@@ -37,6 +37,8 @@ color_space::lab & color_space::lab::operator=(const color_space::lab & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/lch_ab.cpp b/ColorMagic/spaces/lch_ab.cpp
index 891688d..dd94c64 100644
--- a/ColorMagic/spaces/lch_ab.cpp
+++ b/ColorMagic/spaces/lch_ab.cpp
@@ -37,6 +37,8 @@ color_space::lch_ab& color_space::lch_ab::operator=(const lch_ab & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/lch_uv.cpp b/ColorMagic/spaces/lch_uv.cpp
index 4c6bef9..8ea8ea6 100644
--- a/ColorMagic/spaces/lch_uv.cpp
+++ b/ColorMagic/spaces/lch_uv.cpp
@@ -37,6 +37,8 @@ color_space::lch_uv& color_space::lch_uv::operator=(const lch_uv & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index 791cdee..dc5feef 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -45,6 +45,8 @@ color_space::rgb_deepcolor & color_space::rgb_deepcolor::operator=(const color_s
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index ec9f2ca..638a4de 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -96,6 +96,8 @@ color_space::rgb_truecolor & color_space::rgb_truecolor::operator=(const color_s
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/xyy.cpp b/ColorMagic/spaces/xyy.cpp
index 9c7ceb5..082a316 100644
--- a/ColorMagic/spaces/xyy.cpp
+++ b/ColorMagic/spaces/xyy.cpp
@@ -37,6 +37,8 @@ color_space::xyy & color_space::xyy::operator=(const color_space::xyy & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
diff --git a/ColorMagic/spaces/xyz.cpp b/ColorMagic/spaces/xyz.cpp
index 7cfc96d..9118a39 100644
--- a/ColorMagic/spaces/xyz.cpp
+++ b/ColorMagic/spaces/xyz.cpp
@@ -37,6 +37,8 @@ color_space::xyz & color_space::xyz::operator=(const color_space::xyz & other)
 		this->m_component_vector = other.get_component_vector();
 		this->m_max = other.get_component_max();
 		this->m_min = other.get_component_min();
+		this->m_alpha = other.m_alpha;
+		this->m_rgb_color_space = other.get_rgb_color_space();
 	}
 	return *this;
 }
-- 
2.43.0


From e7b37cfd0f77a03a67589a09cfa0dd98f9aae386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 02/36] fix: build rgb, grey and cieluv colours from a base
 object of their type

---
 ColorMagic/spaces/cieluv.cpp         | 2 +-
 ColorMagic/spaces/grey_truecolor.cpp | 3 ++-
 ColorMagic/spaces/rgb_deepcolor.cpp  | 2 +-
 ColorMagic/spaces/rgb_truecolor.cpp  | 3 ++-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/cieluv.cpp b/ColorMagic/spaces/cieluv.cpp
index 9bf0e3c..a09c04f 100644
--- a/ColorMagic/spaces/cieluv.cpp
+++ b/ColorMagic/spaces/cieluv.cpp
@@ -18,7 +18,7 @@ color_space::cieluv::cieluv(const color_space::cieluv & other) : color_base(othe
 
 color_space::cieluv::cieluv(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 4, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::CIELUV && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::CIELUV;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/grey_truecolor.cpp b/ColorMagic/spaces/grey_truecolor.cpp
index 8ed1396..c05a3e3 100644
--- a/ColorMagic/spaces/grey_truecolor.cpp
+++ b/ColorMagic/spaces/grey_truecolor.cpp
@@ -17,9 +17,10 @@ color_space::grey_truecolor::grey_truecolor(const color_space::grey_truecolor &
 
 color_space::grey_truecolor::grey_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 1, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 2)
+	if (other.get_color_type() == color_type::GREY_TRUE && other.get_component_vector().size() == 1)
 	{
 		this->m_type = color_type::GREY_TRUE;
+		color_base::alpha(other.color_base::alpha());
 		this->m_component_vector = other.get_component_vector();
 	}
 	else
diff --git a/ColorMagic/spaces/rgb_deepcolor.cpp b/ColorMagic/spaces/rgb_deepcolor.cpp
index dc5feef..38faa94 100644
--- a/ColorMagic/spaces/rgb_deepcolor.cpp
+++ b/ColorMagic/spaces/rgb_deepcolor.cpp
@@ -26,7 +26,7 @@ color_space::rgb_deepcolor::rgb_deepcolor(const color_space::rgb_deepcolor & oth
 
 color_space::rgb_deepcolor::rgb_deepcolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_DEEP && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_DEEP;
 		this->m_component_vector = other.get_component_vector();
diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index 638a4de..7a26224 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -77,9 +77,10 @@ color_space::rgb_truecolor::rgb_truecolor(const color_space::rgb_truecolor & oth
 
 color_space::rgb_truecolor::rgb_truecolor(const color_base & other) : color_base(other.alpha(), other.get_rgb_color_space(), 3, other.get_component_max(), other.get_component_min())
 {
-	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 4)
+	if (other.get_color_type() == color_type::RGB_TRUE && other.get_component_vector().size() == 3)
 	{
 		this->m_type = color_type::RGB_TRUE;
+		color_base::alpha(other.color_base::alpha());
 		this->m_component_vector = other.get_component_vector();
 	}
 	else
-- 
2.43.0


From 38fe3c19e88431337535977fcb5cb8422fd14e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 03/36] fix: the sum of two true colours keeps its alpha in
 range

---
 ColorMagic/spaces/color_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 074bd2a..2832bd7 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -172,7 +172,7 @@ namespace color_space
 		*/
 		color_base operator+(const color_base& rhs)
 		{
-			color_base result(this->alpha(), this->get_rgb_color_space(), this->m_component_vector.size(), this->get_component_max(), this->get_component_min());
+			color_base result(m_alpha, this->get_rgb_color_space(), this->m_component_vector.size(), this->get_component_max(), this->get_component_min());
 			if (this->get_color_type() == rhs.get_color_type() && this->m_component_vector.size() == rhs.m_component_vector.size())
 			{
 				result.m_type = this->m_type;
-- 
2.43.0


From f1c5a3da0e75bf3f0fa0f709cd317b18ef5cad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 04/36] fix: colours constructed with an alpha outside the
 valid range are clamped like the setter does

---
 ColorMagic/spaces/color_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 2832bd7..43ebe79 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -32,7 +32,7 @@ namespace color_space
 		*/
 		color_base(float alpha, rgb_color_space_definition* color_space, size_t component_count, float component_max = 1.f, float component_min = 0.f)
 		{
-			m_alpha = alpha;
+			m_alpha = clamp(alpha, m_a_max, m_a_min);
 			m_rgb_color_space = color_space;
 			m_max = component_max;
 			m_min = component_min;
-- 
2.43.0


From 78b0acce6d055244a2e9c9dbe56c15228d8f5f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 05/36] fix: inverse ROMM gamma uses the encoded border, so it
 inverts the forward curve

---
 ColorMagic/spaces/gamma.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 02dcbc5..6dcf0b2 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -450,7 +450,7 @@ namespace color_space
 			return new gamma(g, ig);
 		}
 
-		//! Returns the Romm gamma function that consists of two parts with a border at 0.001953f.
+		//! Returns the Romm gamma function that consists of two parts with a border at 0.001953f or 0.031248f.
 		gamma* gammaRomm()
 		{
 			std::vector<gamma_part*> g;
@@ -459,7 +459,7 @@ namespace color_space
 			g.push_back(new gamma_part([](float input) { return 16.f * input; }, 0.001953f));
 			g.push_back(new gamma_part([](float input) { return std::powf(input, 1.f / 1.8f); }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.001953f));
+			ig.push_back(new gamma_part([](float input) { return input / 16.f; }, 0.031248f));
 			ig.push_back(new gamma_part([](float input) { return std::powf(input, 1.8f); }, 1.f));
 
 			return new gamma(g, ig);
-- 
2.43.0


From fccafeb95c9adc3256bfc09a9b23c5f2d344deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 06/36] fix: UHDTV gamma had its forward and inverse curves
 swapped

---
 ColorMagic/spaces/gamma.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 6dcf0b2..9eee53e 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -471,11 +471,11 @@ namespace color_space
 			std::vector<gamma_part*> g;
 			std::vector<gamma_part*> ig;
 
-			g.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
-			g.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
+			g.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
+			g.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
 
-			ig.push_back(new gamma_part([](float input) { return 4.5f * input; }, 0.018053968510807f));
-			ig.push_back(new gamma_part([](float input) { return 1.099f * std::powf(input, 0.45f) - 0.099f; }, 1.f));
+			ig.push_back(new gamma_part([](float input) { return input / 4.5f; }, 0.081f));
+			ig.push_back(new gamma_part([](float input) { return std::powf((input + 0.099f) / 1.099f, 1.f / 0.45f); }, 1.f));
 
 			return new gamma(g, ig);
 		}
-- 
2.43.0


From 240125f280ccbbbc73111e2068cb63b7aeffc351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:51 +0000
Subject: [PATCH 07/36] fix: white point presets had tristimulus values shifted
 by a decimal place

---
 ColorMagic/spaces/white_point.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ColorMagic/spaces/white_point.h b/ColorMagic/spaces/white_point.h
index 5e6fae7..0bfcf75 100644
--- a/ColorMagic/spaces/white_point.h
+++ b/ColorMagic/spaces/white_point.h
@@ -249,7 +249,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_2Degree() { return new white_point(0.10985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
+		white_point* A_2Degree() { return new white_point(1.0985f, 1.f, 0.3558f, 0.4475f, 0.4074f); }
 
 		//! CIE_B tristimulus white (2�)
 		/*!
@@ -269,7 +269,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_2Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_2Degree() { return new white_point(1.0f, 1.f, 1.0f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (2�)
 		/*!
@@ -287,13 +287,13 @@ namespace color_space
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_2Degree() { return new white_point(0.10375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
+		white_point* F3_2Degree() { return new white_point(1.0375f, 1.f, 0.4986f, 0.4090f, 0.3943f); }
 
 		//! CIE_F4 tristimulus white (2�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_2Degree() { return new white_point(0.10914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
+		white_point* F4_2Degree() { return new white_point(1.0914f, 1.f, 0.3881f, 0.4401f, 0.4033f); }
 
 		//! CIE_F5 tristimulus white (2�)
 		/*!
@@ -323,7 +323,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_2Degree() { return new white_point(0.10036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
+		white_point* F9_2Degree() { return new white_point(1.0036f, 1.f, 0.6786f, 0.3741f, 0.3728f); }
 
 		//! CIE_F10 tristimulus white (2�)
 		/*!
@@ -335,13 +335,13 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_2Degree() { return new white_point(0.10096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
+		white_point* F11_2Degree() { return new white_point(1.0096f, 1.f, 0.6437f, 0.3805f, 0.3768f); }
 
 		//! CIE_F12 tristimulus white (2�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_2Degree() { return new white_point(0.10804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
+		white_point* F12_2Degree() { return new white_point(1.0804f, 1.f, 0.3922f, 0.4369f, 0.4044f); }
 
 
 		//! CIE_D50 tristimulus white (10�)
@@ -373,7 +373,7 @@ namespace color_space
 		/*!
 		* Represents incandescent / tungsten (2856 Kelvin)
 		*/
-		white_point* A_10Degree() { return new white_point(0.11114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
+		white_point* A_10Degree() { return new white_point(1.1114f, 1.f, 0.3520f, 0.4511f, 0.4059f); }
 
 		//! CIE_B tristimulus white (10�)
 		/*!
@@ -393,7 +393,7 @@ namespace color_space
 		/*!
 		* Represents equal energy (5454 Kelvin)
 		*/
-		white_point* E_10Degree() { return new white_point(0.1f, 1.f, 0.1f, 0.3333f, 0.3333f); }
+		white_point* E_10Degree() { return new white_point(1.0f, 1.f, 1.0f, 0.3333f, 0.3333f); }
 
 		//! CIE_F1 tristimulus white (10�)
 		/*!
@@ -405,19 +405,19 @@ namespace color_space
 		/*!
 		* Represents cool white fluorescent (4230 Kelvin)
 		*/
-		white_point* F2_10Degree() { return new white_point(0.10328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
+		white_point* F2_10Degree() { return new white_point(1.0328f, 1.f, 0.6902f, 0.3792f, 0.3672f); }
 
 		//! CIE_F3 tristimulus white (10�)
 		/*!
 		* Represents white fluorescent (3450 Kelvin)
 		*/
-		white_point* F3_10Degree() { return new white_point(0.10896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
+		white_point* F3_10Degree() { return new white_point(1.0896f, 1.f, 0.5196f, 0.4175f, 0.3832f); }
 
 		//! CIE_F4 tristimulus white (10�)
 		/*!
 		* Represents warm white fluorescent (2940 Kelvin)
 		*/
-		white_point* F4_10Degree() { return new white_point(0.11496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
+		white_point* F4_10Degree() { return new white_point(1.1496f, 1.f, 0.4096f, 0.4492f, 0.3907f); }
 
 		//! CIE_F5 tristimulus white (10�)
 		/*!
@@ -429,7 +429,7 @@ namespace color_space
 		/*!
 		* Represents lite white fluorescent (4150 Kelvin)
 		*/
-		white_point* F6_10Degree() { return new white_point(0.10214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
+		white_point* F6_10Degree() { return new white_point(1.0214f, 1.f, 0.6207f, 0.3865f, 0.3784f); }
 
 		//! CIE_F7 tristimulus white (10�)
 		/*!
@@ -447,7 +447,7 @@ namespace color_space
 		/*!
 		* Represents cool white deluxe fluorescent (4150 Kelvin)
 		*/
-		white_point* F9_10Degree() { return new white_point(0.10211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
+		white_point* F9_10Degree() { return new white_point(1.0211f, 1.f, 0.6782f, 0.3782f, 0.3704f); }
 
 		//! CIE_F10 tristimulus white (10�)
 		/*!
@@ -459,12 +459,12 @@ namespace color_space
 		/*!
 		* Represents Philips TL84, Ultralume 40 (4000 Kelvin)
 		*/
-		white_point* F11_10Degree() { return new white_point(0.10386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
+		white_point* F11_10Degree() { return new white_point(1.0386f, 1.f, 0.6562f, 0.3854f, 0.3710f); }
 
 		//! CIE_F12 tristimulus white (10�)
 		/*!
 		* Represents Philips TL83, Ultralume 30 (3000 Kelvin)
 		*/
-		white_point* F12_10Degree() { return new white_point(0.11142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
+		white_point* F12_10Degree() { return new white_point(1.1142f, 1.f, 0.4035f, 0.4425f, 0.3971f); }
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 7c6283acd922309f3c12e7dfe7e713d8016ae233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 08/36] fix: matrix insert reads the values of non-square
 matrices row by row

---
 ColorMagic/utils/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 199565c..656245e 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -513,7 +513,7 @@ public:
 			{
 				for (int j = 0; j < m_columns; j++)
 				{
-					this->m_values[i][j] = values[i * m_rows + j];
+					this->m_values[i][j] = values[i * m_columns + j];
 				}
 			}
 		}
-- 
2.43.0


From 5f6c3249f1156bd03d524078f5e4ab5b8f475018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 09/36] fix: products with non-square matrices have the right
 shape and inner dimension

---
 ColorMagic/utils/matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 656245e..f3cca4c 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -213,7 +213,7 @@ public:
 	//! Multiply two matrices
 	matrix<T> operator*(const matrix<T>& other)
 	{
-		int rows = other.rows();
+		int rows = m_rows;
 		int cols = other.columns();
 		matrix result(rows, cols);
 
@@ -221,7 +221,7 @@ public:
 		{
 			for (int j = 0; j < cols; j++)
 			{
-				for (int k = 0; k < rows; k++)
+				for (int k = 0; k < m_columns; k++)
 				{
 					result(i, j) += this->m_values[i][k] * other(k, j);
 				}
@@ -310,7 +310,7 @@ public:
 	*/
 	std::vector<T> operator*(const std::vector<T>& other)
 	{
-		std::vector<T> result(other.size());
+		std::vector<T> result(m_rows);
 
 		for (int i = 0; i < m_rows; i++)
 		{
-- 
2.43.0


From d39c32be0f836d6a0f0dfb3d63c2f47c6d13758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 10/36] fix: transpose of non-square matrices

---
 ColorMagic/utils/matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index f3cca4c..60ee1e1 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -343,11 +343,11 @@ public:
 	*/
 	matrix<T> transpose()
 	{
-		matrix result(m_rows, m_columns);
+		matrix result(m_columns, m_rows);
 
-		for (int i = 0; i < m_rows; i++)
+		for (int i = 0; i < m_columns; i++)
 		{
-			for (int j = 0; j < m_columns; j++)
+			for (int j = 0; j < m_rows; j++)
 			{
 				result(i, j) = this->m_values[j][i];
 			}
-- 
2.43.0


From db0062f657cc6048fd5aac7302663934155addd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 11/36] fix: matrix element access rejects negative indices and
 builds its message within bounds

---
 ColorMagic/utils/matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 60ee1e1..09d7ad5 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -6,6 +6,7 @@
 #pragma once
 #include <vector>
 #include <stdexcept>
+#include <string>
 
 template <typename T> class matrix
 {
@@ -110,16 +111,16 @@ public:
 	//! Accessment operator
 	T& operator() (int row, int column)
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: row index " + std::to_string(row) + " is out of range.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: column index " + std::to_string(column) + " is out of range.");
 		return m_values[row][column];
 	}
 
 	//! Accessment operator
 	const T& operator() (int row, int column) const
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: row index " + std::to_string(row) + " is out of range.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: column index " + std::to_string(column) + " is out of range.");
 		return m_values[row][column];
 	}
 
-- 
2.43.0


From 6ed6507cf6563af8d5319c9d933726f4258de97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 12/36] fix: convertTo supports the LCH target spaces instead
 of returning null

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c1c087b..f1d28e8 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -33,6 +33,10 @@ color_space::color_base* color_manipulation::color_converter::convertTo(color_sp
 		return color_manipulation::color_converter::to_cieluv(in_color);
 	case color_type::LAB:
 		return color_manipulation::color_converter::to_lab(in_color);
+	case color_type::LCH_AB:
+		return color_manipulation::color_converter::to_lch_ab(in_color);
+	case color_type::LCH_UV:
+		return color_manipulation::color_converter::to_lch_uv(in_color);
 	default:
 		return nullptr;
 	}
-- 
2.43.0


From a9cf00765a335a1d47e1574595e6127f4c288aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 13/36] fix: converting an rgb deep colour to xyz no longer
 linearises the input in place

---
 ColorMagic/manipulation/color_converter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index f1d28e8..c416fdc 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -217,9 +217,10 @@ color_space::hcy* color_manipulation::color_converter::rgb_deep_to_hcy(color_spa
 
 color_space::xyz* color_manipulation::color_converter::rgb_deep_to_xyz(color_space::rgb_deepcolor* color)
 {
-	color->do_inverse_gamma_correction();
+	color_space::rgb_deepcolor linear(*color);
+	linear.do_inverse_gamma_correction();
 
-	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* color->get_component_vector();
+	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* linear.get_component_vector();
 	return new color_space::xyz(xyz_components[0], xyz_components[1], xyz_components[2], color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From 32f08924b01f3ca12b1caea77303f104bee369de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 14/36] fix: rgb black converts to cmyk without dividing by
 zero

---
 ColorMagic/manipulation/color_converter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c416fdc..0652383 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -133,6 +133,11 @@ color_space::grey_deepcolor* color_manipulation::color_converter::rgb_deep_to_gr
 color_space::cmyk* color_manipulation::color_converter::rgb_deep_to_cmyk(color_space::rgb_deepcolor* color)
 {
 	auto k = 1 - std::fmaxf(std::fmaxf(color->red(), color->green()), color->blue());
+	if (k == 1.f) // black
+	{
+		return new color_space::cmyk(0.f, 0.f, 0.f, k, color->alpha(), color->get_rgb_color_space());
+	}
+
 	auto c = (1 - color->red() - k) / (1.f - k);
 	auto m = (1 - color->green() - k) / (1.f - k);
 	auto y = (1 - color->blue() - k) / (1.f - k);
-- 
2.43.0


From 540f7b760a5824371bb26269edd3af206fb72bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 15/36] fix: hsi to rgb adds the achromatic offset

---
 ColorMagic/manipulation/color_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 0652383..360d233 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -493,7 +493,8 @@ color_space::rgb_deepcolor* color_manipulation::color_converter::hsi_to_rgb_deep
 	else if (h_temp > 5.f && h_temp <= 6.f) { r_temp = chroma;	g_temp = 0.f;		b_temp = x; }
 	else { r_temp = 0.f;		g_temp = 0.f;		b_temp = 0.f; }
 
-	return new color_space::rgb_deepcolor(r_temp, g_temp, b_temp, color->alpha(), color->get_rgb_color_space());
+	auto m = color->intensity()* (1.f - color->saturation());
+	return new color_space::rgb_deepcolor(r_temp + m, g_temp + m, b_temp + m, color->alpha(), color->get_rgb_color_space());
 }
 
 color_space::grey_truecolor* color_manipulation::color_converter::hsi_to_grey_true(color_space::hsi* color)
-- 
2.43.0


From 5be26a3bb7bf7fcf289d1b49304579c0b5d598d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 16/36] fix: hsl black keeps its alpha when converted to rgb

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 360d233..5523466 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -660,7 +660,7 @@ color_space::rgb_truecolor* color_manipulation::color_converter::hsl_to_rgb_true
 
 color_space::rgb_deepcolor* color_manipulation::color_converter::hsl_to_rgb_deep(color_space::hsl* color)
 {
-	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, 0.f, color->get_rgb_color_space());
+	if (color->lightness() == 0.f) return new color_space::rgb_deepcolor(0.f, color->alpha(), color->get_rgb_color_space());
 
 	/* Old not optimized version
 
-- 
2.43.0


From cb0b7ea5ba7388eb9ff88d1584f374803c7ab741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 17/36] fix: operator precedence in the saturation of hsl to
 hsv

---
 ColorMagic/manipulation/color_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index 5523466..af24694 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -713,7 +713,7 @@ color_space::hsi* color_manipulation::color_converter::hsl_to_hsi(color_space::h
 color_space::hsv* color_manipulation::color_converter::hsl_to_hsv(color_space::hsl* color)
 {
 	auto l_temp = color->lightness()* 2.f;
-	auto m_sat = color->saturation()* (l_temp <= 1.f) ? l_temp : (2.f - l_temp);
+	auto m_sat = color->saturation()* ((l_temp <= 1.f) ? l_temp : (2.f - l_temp));
 	auto v = (l_temp + m_sat) / 2.f;
 	auto s = (2.f* m_sat) / (l_temp + m_sat);
 	return new color_space::hsv(color->hue(), s, v, color->alpha(), color->get_rgb_color_space());
-- 
2.43.0


From 41acf8cba580e4fa701ae3b46eb5abf0c735c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 18/36] fix: xyz to cieluv uses the luminance ratio and the
 reference white of CIE 1976, and maps black to zero

---
 ColorMagic/manipulation/color_converter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index af24694..d23324e 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -909,7 +909,13 @@ color_space::xyy* color_manipulation::color_converter::xyz_to_xyy(color_space::x
 
 color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_space::xyz* color)
 {
-	auto y_temp = color->x() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
+	if (color->x() == 0 && color->y() == 0 && color->z() == 0)
+	{
+		// special case for black (u' and v' are undefined)
+		return new color_space::cieluv(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
+
+	auto y_temp = color->y() / color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
 	auto u_temp = 4.f* color->x() / (color->x() + 15.f* color->y() + 3.f* color->z());
 	auto v_temp = 9.f* color->y() / (color->x() + 15.f* color->y() + 3.f* color->z());
 
@@ -918,7 +924,7 @@ color_space::cieluv* color_manipulation::color_converter::xyz_to_cieluv(color_sp
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
-	auto v_w_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
+	auto v_w_temp = 9.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
-- 
2.43.0


From bac17827bcf9823ae8945741275dfe1d13258248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 19/36] fix: cieluv black converts to xyz black instead of
 dividing by zero

---
 ColorMagic/manipulation/color_converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index d23324e..c3f6be6 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1086,6 +1086,12 @@ color_space::hcy* color_manipulation::color_converter::cieluv_to_hcy(color_space
 
 color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space::cieluv* color)
 {
+	if (color->L() == 0.f)
+	{
+		// special case for black (set X, Y and Z to 0)
+		return new color_space::xyz(0.f, 0.f, 0.f, color->alpha(), color->get_rgb_color_space());
+	}
+
 	auto u_temp = 4.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() /
 		(color->get_rgb_color_space()->get_white_point()->get_tristimulus_x() +
 			15.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_y() +
-- 
2.43.0


From 0b2b6071a580bb7b5863b8221b8eede5fa53c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 20/36] fix: lab and cieluv to LCH report the hue in degrees
 and an unscaled chroma

---
 ColorMagic/manipulation/color_converter.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c3f6be6..e5d3af4 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1131,8 +1131,7 @@ color_space::lch_ab* color_manipulation::color_converter::cieluv_to_lch_ab(color
 color_space::lch_uv* color_manipulation::color_converter::cieluv_to_lch_uv(color_space::cieluv* color)
 {
 	auto chroma = sqrtf(powf(color->u(), 2.f) + powf(color->v(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->v(), color->u());
+	auto hue = (float)(atan2f(color->v(), color->u())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_uv(color->L(), chroma, hue, 0.f, color->get_rgb_color_space());
@@ -1210,8 +1209,7 @@ color_space::xyy* color_manipulation::color_converter::lab_to_xyy(color_space::l
 color_space::lch_ab* color_manipulation::color_converter::lab_to_lch_ab(color_space::lab* color)
 {
 	auto chroma = sqrtf(powf(color->a(), 2.f) + powf(color->b(), 2.f));
-	chroma = transform_range(chroma, color->get_component_min(), color->get_component_max(), 0.f, 100.f);
-	auto hue = atan2f(color->b(), color->a());
+	auto hue = (float)(atan2f(color->b(), color->a())* 180.f / M_PI);
 	if (hue < 0.f) hue += 360.f;
 
 	auto lch = new color_space::lch_ab(color->luminance(), chroma, hue, 0.f, color->get_rgb_color_space());
-- 
2.43.0


From 2cc4f452d7e031e5223c051a90973f7b00bbc735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 21/36] fix: euclidean_distance honours its calculation space

---
 ColorMagic/manipulation/color_distance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index d17a8b1..b7a5a9c 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -39,7 +39,7 @@ float color_manipulation::color_distance::euclidean_distance(color_space::color_
 {
 	if (color1 == color2) return 0.f; // both colors have same type and are equal
 
-	return sqrtf(euclidean_distance_squared(color1, color2));
+	return sqrtf(euclidean_distance_squared(color1, color2, calculation_space));
 }
 
 float color_manipulation::color_distance::euclidean_distance_weighted(color_space::color_base * color1, color_space::color_base * color2)
-- 
2.43.0


From 9a960481fecd03e965fb7802ee963a418d11e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 22/36] fix: CIE94 and CMC distances are not NaN when rounding
 makes the squared hue difference negative

---
 ColorMagic/manipulation/color_distance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index b7a5a9c..127a37b 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -93,7 +93,7 @@ float color_manipulation::color_distance::cielab_delta_e_cie94(color_space::colo
 	auto c1 = sqrtf(powf(color1_lab->a(), 2.f) + powf(color1_lab->b(), 2.f));
 	auto c2 = sqrtf(powf(color2_lab->a(), 2.f) + powf(color2_lab->b(), 2.f));
 	auto delta_c = c1 - c2;
-	auto delta_h = sqrtf(powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f));
+	auto delta_h = sqrtf(fmaxf(0.f, powf(color1_lab->a() - color2_lab->a(), 2.f) + powf(color1_lab->b() - color2_lab->b(), 2.f) - powf(delta_c, 2.f)));
 	auto sc = 1.f + k1 * c1;
 	auto sh = 1.f + k2 * c1;
 
@@ -178,7 +178,7 @@ float color_manipulation::color_distance::cmc_delta_e_lc84(color_space::color_ba
 	auto delta_C = C1 - C2;
 	auto delta_a = color1_lab->a() - color2_lab->a();
 	auto delta_b = color1_lab->b() - color2_lab->b();
-	auto delta_H = sqrtf(powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f));
+	auto delta_H = sqrtf(fmaxf(0.f, powf(delta_a, 2.f) + powf(delta_b, 2.f) - powf(delta_C, 2.f)));
 	auto delta_L = color1_lab->luminance() - color2_lab->luminance();
 
 	auto H = to_deg(atan2(color1_lab->b(), color1_lab->a()));
-- 
2.43.0


From 0edc4da5d6f069ce98acb28a24b226cb0cec537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 23/36] fix: CIEDE2000 chroma terms use the adjusted chroma

---
 ColorMagic/manipulation/color_distance.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/manipulation/color_distance.cpp b/ColorMagic/manipulation/color_distance.cpp
index 127a37b..b4cfd26 100644
--- a/ColorMagic/manipulation/color_distance.cpp
+++ b/ColorMagic/manipulation/color_distance.cpp
@@ -152,11 +152,11 @@ float color_manipulation::color_distance::cielab_delta_e_cie00(color_space::colo
 	}
 
 	auto delta_L = color2_lab->luminance() - color1_lab->luminance();
-	auto delta_C = C2 - C1;
-	auto delta_H = 2.f * sqrtf(C1 * C2) * sinf(to_rad(delta_h / 2.f));
+	auto delta_C = temp_c2 - temp_c1;
+	auto delta_H = 2.f * sqrtf(temp_c1 * temp_c2) * sinf(to_rad(delta_h / 2.f));
 
-	auto sC = 1.f + k1 * avg_c;
-	auto sH = 1.f + k2 * avg_c * (1.f - 0.17f * cosf(to_rad(H - 30.f)) + 0.24f * cosf(to_rad(2.f * H)) + 0.32f * cosf(to_rad(3.f * H + 6.f)) - 0.2f * cosf(to_rad(4.f * H - 63.f)));
+	auto sC = 1.f + k1 * temp_avg_c;
+	auto sH = 1.f + k2 * temp_avg_c * (1.f - 0.17f * cosf(to_rad(H - 30.f)) + 0.24f * cosf(to_rad(2.f * H)) + 0.32f * cosf(to_rad(3.f * H + 6.f)) - 0.2f * cosf(to_rad(4.f * H - 63.f)));
 	auto sL = 1.f + ((k2 * powf(avg_l - 50.f, 2.f)) / sqrtf(20.f + powf(avg_l - 50.f, 2.f)));
 	auto rt = -2.f * sqrt_c_pow * sinf(to_rad(60.f * expf(powf(-(H - 275.f) / 25.f, 2.f))));
 
-- 
2.43.0


From 74de45b4932dbbfc75a7180a5e2eaaa26e1ceda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 24/36] fix: average of cmyk colours averages the alpha values

---
 ColorMagic/manipulation/color_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 01b1b9d..1430f49 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -586,7 +586,7 @@ color_space::cmyk * color_manipulation::color_calculation::average_cmyk(std::vec
 		sum[1] += colors[i]->magenta();
 		sum[2] += colors[i]->yellow();
 		sum[3] += colors[i]->black();
-		sum[4] = include_alpha ? sum[3] + colors[i]->alpha() : colors[0]->alpha();
+		sum[4] = include_alpha ? sum[4] + colors[i]->alpha() : colors[0]->alpha();
 	}
 	return new color_space::cmyk(sum[0] / colors.size(), sum[1] / colors.size(), sum[2] / colors.size(), sum[3] / colors.size(), include_alpha ? sum[4] / colors.size() : sum[4], colors[0]->get_rgb_color_space());
 }
-- 
2.43.0


From ff48e9666847802428f1a5a193b62a3fdef4d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 25/36] fix: subtract passes include_alpha on through the
 intermediate space

---
 ColorMagic/manipulation/color_calculation.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index 1430f49..b35920e 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -429,7 +429,7 @@ color_space::hsi * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsi(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hsv * color_manipulation::color_calculation::subtract(color_space::hsv * color1, color_space::hsv * color2, float weight, bool include_alpha)
@@ -452,14 +452,14 @@ color_space::hsl * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hsl(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::hcy * color_manipulation::color_calculation::subtract(color_space::hcy * color1, color_space::hcy * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight));
+	return color_manipulation::color_converter::to_hcy(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha));
 }
 
 color_space::xyz * color_manipulation::color_calculation::subtract(color_space::xyz * color1, color_space::xyz * color2, float weight, bool include_alpha)
@@ -502,21 +502,21 @@ color_space::lab * color_manipulation::color_calculation::subtract(color_space::
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_ab * color_manipulation::color_calculation::subtract(color_space::lch_ab * color1, color_space::lch_ab * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_ab(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::lch_uv * color_manipulation::color_calculation::subtract(color_space::lch_uv * color1, color_space::lch_uv * color2, float weight, bool include_alpha)
 {
 	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
-	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight));
+	return color_manipulation::color_converter::to_lch_uv(color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha));
 }
 
 color_space::rgb_truecolor * color_manipulation::color_calculation::average_rgb_true(std::vector<color_space::rgb_truecolor*> colors, bool include_alpha)
-- 
2.43.0


From 152c42d6865ce30c325e97558f114cfbf14a76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 26/36] fix: add, mix and subtract handle every colour type
 instead of returning null

---
 ColorMagic/manipulation/color_calculation.cpp | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index b35920e..b628493 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -20,8 +20,12 @@ color_space::color_base * color_manipulation::color_calculation::add(color_space
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight1, weight2, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight1, weight2, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight1, weight2, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight1, weight2, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight1, weight2, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::add(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight1, weight2, include_alpha);
 	case color_type::XYY:
@@ -223,10 +227,18 @@ color_space::color_base * color_manipulation::color_calculation::mix(color_space
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::mix(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
@@ -359,10 +371,18 @@ color_space::color_base * color_manipulation::color_calculation::subtract(color_
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cmyk(color1), color_manipulation::color_converter::to_cmyk(color2), weight, include_alpha);
 	case color_type::HSV:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsv(color1), color_manipulation::color_converter::to_hsv(color2), weight, include_alpha);
+	case color_type::HSI:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsi(color1), color_manipulation::color_converter::to_hsi(color2), weight, include_alpha);
 	case color_type::HSL:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hsl(color1), color_manipulation::color_converter::to_hsl(color2), weight, include_alpha);
+	case color_type::HCY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_hcy(color1), color_manipulation::color_converter::to_hcy(color2), weight, include_alpha);
 	case color_type::XYZ:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyz(color1), color_manipulation::color_converter::to_xyz(color2), weight, include_alpha);
+	case color_type::XYY:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_xyy(color1), color_manipulation::color_converter::to_xyy(color2), weight, include_alpha);
+	case color_type::CIELUV:
+		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_cieluv(color1), color_manipulation::color_converter::to_cieluv(color2), weight, include_alpha);
 	case color_type::LAB:
 		return color_manipulation::color_calculation::subtract(color_manipulation::color_converter::to_lab(color1), color_manipulation::color_converter::to_lab(color2), weight, include_alpha);
 	case color_type::LCH_AB:
-- 
2.43.0


From 2d040a4c3d639b9527a78c4ab0cfdd41263cb635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 27/36] fix: mix and subtract accept a weight of zero as
 documented

---
 ColorMagic/manipulation/color_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_calculation.cpp b/ColorMagic/manipulation/color_calculation.cpp
index b628493..0f33872 100644
--- a/ColorMagic/manipulation/color_calculation.cpp
+++ b/ColorMagic/manipulation/color_calculation.cpp
@@ -211,7 +211,7 @@ color_space::lch_uv * color_manipulation::color_calculation::add(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::mix(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
@@ -355,7 +355,7 @@ color_space::lch_uv * color_manipulation::color_calculation::mix(color_space::lc
 
 color_space::color_base * color_manipulation::color_calculation::subtract(color_space::color_base * color1, color_space::color_base * color2, float weight, bool include_alpha)
 {
-	if (weight <= 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
+	if (weight < 0.f || weight > 1.f) throw new std::invalid_argument("Parameter weight has to be in the range [0,1].");
 
 	switch (color1->get_color_type())
 	{
-- 
2.43.0


From bcf2c90b16b52020cdd6eb006b036a745c3a2905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 28/36] fix: create_combination rejects negative colour counts

---
 ColorMagic/manipulation/color_combinations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index 90daf8d..ddc75d1 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -23,7 +23,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 std::vector<color_space::color_base*> color_manipulation::color_combinations::create_combination(color_space::color_base * color, int number_of_colors)
 {
-	if (number_of_colors == 0) throw new std::invalid_argument("A color combination with 0 colors in it is invalid. Chose a color count >= 2");
+	if (number_of_colors <= 0) throw new std::invalid_argument("A color combination with 0 colors in it is invalid. Chose a color count >= 2");
 	if (number_of_colors == 1) throw new std::invalid_argument("A color combination with 1 colors in it is invalid since it would just return the input color. Chose a color count >= 2");
 	if (number_of_colors > 360) throw new std::invalid_argument("A color combination with more than 360 colors is invalid.");
 
-- 
2.43.0


From 536841216ab4d885c9cd985c7387b596991c10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 29/36] fix: colour combinations keep the alpha of true colours

---
 ColorMagic/manipulation/color_combinations.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ColorMagic/manipulation/color_combinations.cpp b/ColorMagic/manipulation/color_combinations.cpp
index ddc75d1..0607a6c 100644
--- a/ColorMagic/manipulation/color_combinations.cpp
+++ b/ColorMagic/manipulation/color_combinations.cpp
@@ -36,7 +36,7 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 
 	for (auto i = 1; i <= number_of_colors - 1; ++i)
 	{
-		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color->alpha(), color->get_rgb_color_space());
+		auto new_color = new color_space::hsl(color_hsl->hue() + (i * degrees), color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), color->get_rgb_color_space());
 		combination.push_back(color_manipulation::color_converter::convertTo(new_color, color->get_color_type()));
 	}
 
@@ -51,9 +51,9 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 	std::vector<color_space::color_base*> triplet;
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(base_color, color_type::HSL));
 
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() - distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 	triplet.push_back(base_color);
-	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
+	triplet.push_back(color_manipulation::color_converter::convertTo(new color_space::hsl(color_hsl->hue() + distance_between, color_hsl->saturation(), color_hsl->lightness(), color_hsl->alpha(), base_color->get_rgb_color_space()), base_color->get_color_type()));
 
 	return triplet;
 }
@@ -75,13 +75,13 @@ std::vector<color_space::color_base*> color_manipulation::color_combinations::cr
 		switch (mode)
 		{
 		case 0:
-			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 1:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), in_color_type));
 			break;
 		case 2:
-			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), base_color->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
+			combination.push_back(color_converter::convertTo(color_adjustments::luminate_in_hsl_space(color_adjustments::saturate_in_hsl_space(new color_space::hsl(last_hsl->hue(), last_hsl->saturation(), last_hsl->lightness(), last_hsl->alpha(), base_color->get_rgb_color_space()), amount), amount), in_color_type));
 			break;
 		default:
 			throw new std::invalid_argument("Invalid mode.");;
-- 
2.43.0


From a3ca750d0ce319ccda70af0447f756d98a405edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 30/36] fix: adjusting an hsl colour no longer changes the
 input colour

---
 ColorMagic/manipulation/color_adjustments.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/manipulation/color_adjustments.cpp b/ColorMagic/manipulation/color_adjustments.cpp
index 815adbe..41c5b49 100644
--- a/ColorMagic/manipulation/color_adjustments.cpp
+++ b/ColorMagic/manipulation/color_adjustments.cpp
@@ -30,9 +30,9 @@ color_space::color_base * color_manipulation::color_adjustments::saturate_in_hsl
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
 
 	auto factor = 1.f + percentage;
-	color_hsl->saturation(color_hsl->saturation() * factor);
+	auto new_color = new color_space::hsl(color_hsl->hue(), color_hsl->saturation() * factor, color_hsl->lightness(), color_hsl->alpha(), color_hsl->get_rgb_color_space());
 
-	return color_manipulation::color_converter::convertTo(color_hsl, color->get_color_type());
+	return color_manipulation::color_converter::convertTo(new_color, color->get_color_type());
 }
 
 void color_manipulation::color_adjustments::luminate_in_rgb_space(color_space::color_base & color, float percentage)
@@ -64,7 +64,7 @@ color_space::color_base * color_manipulation::color_adjustments::luminate_in_hsl
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
 
 	auto factor = 1.f + percentage;
-	color_hsl->lightness(color_hsl->lightness() * factor);
+	auto new_color = new color_space::hsl(color_hsl->hue(), color_hsl->saturation(), color_hsl->lightness() * factor, color_hsl->alpha(), color_hsl->get_rgb_color_space());
 
-	return color_manipulation::color_converter::convertTo(color_hsl, color->get_color_type());
+	return color_manipulation::color_converter::convertTo(new_color, color->get_color_type());
 }
-- 
2.43.0


From 84ae995d683f7c6994bfcd20f13a674011dc7bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 31/36] fix: blend results stay in range after the division by
 alpha

---
 ColorMagic/manipulation/base_color_blend.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/base_color_blend.h b/ColorMagic/manipulation/base_color_blend.h
index dc7f702..c8b7a60 100644
--- a/ColorMagic/manipulation/base_color_blend.h
+++ b/ColorMagic/manipulation/base_color_blend.h
@@ -67,6 +67,10 @@ namespace color_manipulation
 			}
 
 			resulting_color->alpha_divide();
+			for (size_t i = 0; i < resulting_color->get_component_vector().size(); ++i)
+			{
+				resulting_color->set_component(resulting_color->get_component_vector()[i], i);
+			}
 			return resulting_color;
 		}
 	};
-- 
2.43.0


From 2a97d957d9845ca75ef1d1b207709888bffb1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 32/36] fix: dissolve compares the alpha of true and deep
 colours on the same scale

---
 ColorMagic/manipulation/color_blend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/manipulation/color_blend.cpp b/ColorMagic/manipulation/color_blend.cpp
index af82a46..d5f79bd 100644
--- a/ColorMagic/manipulation/color_blend.cpp
+++ b/ColorMagic/manipulation/color_blend.cpp
@@ -26,7 +26,7 @@ color_space::color_base * color_manipulation::color_blend::dissolve(color_space:
 	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
 	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
 
-	float source_dest_alpha_diff = source->alpha() - destination->alpha();
+	float source_dest_alpha_diff = color_converter::to_rgb_deep(source)->alpha() - color_converter::to_rgb_deep(destination)->alpha();
 	return color_converter::convertTo(
 		(new color_blend())->general_porter_duff(
 			color_converter::to_rgb_deep(source),
-- 
2.43.0


From 276637e90b6018be00a84865808f66e41ec0099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 33/36] fix: hex codes with a misplaced number sign are
 rejected instead of read uninitialised

---
 ColorMagic/spaces/rgb_truecolor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index 7a26224..b00896e 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -21,7 +21,7 @@ color_space::rgb_truecolor::rgb_truecolor(float r, float g, float b, float alpha
 
 color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_definition* color_space) : color_base(0, color_space, 3, 255.f, 0.f)
 {
-	std::regex regex("^[#0-9A-Fa-f]+$");
+	std::regex regex("^#?[0-9A-Fa-f]+$");
 
 	if (!std::regex_match(hex_code, regex))
 	{
-- 
2.43.0


From 66d7d19f2206327792171a215e47a0b25f5f4aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 34/36] fix: nonlinear Bradford and CMCCAT97 adaptation
 normalise by the luminance and keep black black

---
 .../manipulation/chromatic_adaptation.cpp     | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ColorMagic/manipulation/chromatic_adaptation.cpp b/ColorMagic/manipulation/chromatic_adaptation.cpp
index 38720be..e252dc0 100644
--- a/ColorMagic/manipulation/chromatic_adaptation.cpp
+++ b/ColorMagic/manipulation/chromatic_adaptation.cpp
@@ -118,10 +118,12 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 
 	// Convert to XYZ space and transform using bradford matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
+	auto luminance = tmp_color->y();
+	auto normalization = luminance > 0.f ? luminance : 1.f;
 	auto rgb_comp = m_bradford * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	rgb_comp[0] /= normalization;
+	rgb_comp[1] /= normalization;
+	rgb_comp[2] /= normalization;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -140,11 +142,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> tmp_rgb_comp;
-	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * color->get_component_vector()[1]);
-	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * color->get_component_vector()[1]);
+	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * normalization);
+	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * normalization);
 
 	float div = rgb_comp[2] / scaled_source_wp[2];
-	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * color->get_component_vector()[1]); // avoid overflow of float
+	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * normalization); // avoid overflow of float
 	if (div < 0.f) tmp_rgb_comp[2] *= -1.f;
 
 	auto transformed_components = m_inverted_bradford * tmp_rgb_comp;
@@ -205,10 +207,12 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 
 	// Convert to XYZ space and transform using cmccat97 matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
+	auto luminance = tmp_color->y();
+	auto normalization = luminance > 0.f ? luminance : 1.f;
 	auto rgb_comp = m_cmccat97 * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	rgb_comp[0] /= normalization;
+	rgb_comp[1] /= normalization;
+	rgb_comp[2] /= normalization;
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -232,9 +236,9 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> rgbc;
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
+	rgbc.push_back(normalization * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
+	rgbc.push_back(normalization * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
+	rgbc.push_back(normalization * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
 
 	if (rgb_comp[2] < 0.f) rgbc[2] *= -1.f;
 
-- 
2.43.0


From 05a86d5eff0c892ab8263c5196f8e2d975ff4fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 35/36] fix: reject over-long hex strings before matching them
 (stack overflow in std::regex)

---
 ColorMagic/spaces/rgb_truecolor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index b00896e..927be7e 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -21,6 +21,11 @@ color_space::rgb_truecolor::rgb_truecolor(float r, float g, float b, float alpha
 
 color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_definition* color_space) : color_base(0, color_space, 3, 255.f, 0.f)
 {
+	if (hex_code.length() > 9) // longer than #AARRGGBB (matching the regex needs stack space for every character)
+	{
+		throw std::invalid_argument("Wrong hex code format. Use one of the following formats: #AARRGGBB, #RRGGBB, AARRGGBB, RRGGBB");
+	}
+
 	std::regex regex("^#?[0-9A-Fa-f]+$");
 
 	if (!std::regex_match(hex_code, regex))
-- 
2.43.0


From 7edbe047e515053cc555a0769873c4327eb09198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 36/36] fix: CIE L*u*v* to XYZ scales by the luminance of the
 white point

---
 ColorMagic/manipulation/color_converter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index e5d3af4..ebee6f3 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -1103,6 +1103,7 @@ color_space::xyz* color_manipulation::color_converter::cieluv_to_xyz(color_space
 			3.f* color->get_rgb_color_space()->get_white_point()->get_tristimulus_z());
 
 	auto Y = color->L() > 903.3f* 0.008856f ? powf((color->L() + 16.f) / 116.f, 3.f) : color->L() / 903.3f;
+	Y *= color->get_rgb_color_space()->get_white_point()->get_tristimulus_y();
 	auto a = 1.f / 3.f* ((52.f* color->L() / (color->u() + 13.f* color->L()* u_temp)) - 1.f);
 	auto b = -5.f* Y;
 	auto c = -1.f / 3.f;
-- 
2.43.0

