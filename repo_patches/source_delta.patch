From c5e9be326789f0a09e69ff8e69c4b88d027014cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 01/40] fix: AVX-512 partial-width gathers must not use aligned
 full-width loads

load_16x2_tr, load_16x2_bc, load_16x3_tr, load_16x4_tr and load_16x8_tr read a
whole 64-byte row with an aligned load although callers pass pointers into
80-byte field_t, 32-byte particle_t and interpolator_t members: builds with
USE_V16_AVX512 fault in advance_b, and read past the end of arrays. Load
exactly the elements asked for instead.
---
 src/util/v16/v16_avx512.h | 130 +++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 65 deletions(-)

diff --git a/src/util/v16/v16_avx512.h b/src/util/v16/v16_avx512.h
index 92452e4..df134be 100644
--- a/src/util/v16/v16_avx512.h
+++ b/src/util/v16/v16_avx512.h
@@ -624,22 +624,22 @@ namespace v16
     __m512 t00, t01, t02,      t04,      t06,      t08, t09, t10,      t12,      t14;
     __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    u00   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
+    u01   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
+    u02   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
+    u03   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
+    u04   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
+    u05   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
+    u06   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
+    u07   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
+    u08   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
+    u09   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
+    u10   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
+    u11   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
+    u12   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
+    u13   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
+    u14   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
+    u15   = _mm512_maskz_loadu_ps( 0x0003, (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
 
     t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
     t02   = _mm512_unpacklo_ps( u02, u03 );                            //  32  48  33  49  36  52  37  53  40  56  41  57  44  60  45  61
@@ -673,7 +673,7 @@ namespace v16
   {
     __m512 t00;
 
-    t00 = _mm512_load_ps( (const float *)a00 );
+    t00 = _mm512_maskz_loadu_ps( 0x0003, (const float *)a00 );
 
     b00.v = _mm512_set1_ps( t00[0] );
     b01.v = _mm512_set1_ps( t00[1] );
@@ -700,22 +700,22 @@ namespace v16
     __m512 t00, t01, t02, t03, t04, t05, t06, t07, t08, t09, t10, t11, t12, t13, t14, t15;
     __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    u00   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
+    u01   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
+    u02   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
+    u03   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
+    u04   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
+    u05   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
+    u06   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
+    u07   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
+    u08   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
+    u09   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
+    u10   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
+    u11   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
+    u12   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
+    u13   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
+    u14   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
+    u15   = _mm512_maskz_loadu_ps( 0x0007, (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
 
     t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
     t01   = _mm512_unpackhi_ps( u00, u01 );                            //   2  18   3  19   6  22   7  23  10  26  11  27  14  30  15  31
@@ -780,22 +780,22 @@ namespace v16
     __m512 t00, t01, t02, t03, t04, t05, t06, t07, t08, t09, t10, t11, t12, t13, t14, t15;
     __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    u00   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
+    u01   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
+    u02   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
+    u03   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
+    u04   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
+    u05   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
+    u06   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
+    u07   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
+    u08   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
+    u09   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
+    u10   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
+    u11   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
+    u12   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
+    u13   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
+    u14   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
+    u15   = _mm512_maskz_loadu_ps( 0x000f, (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
 
     t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
     t01   = _mm512_unpackhi_ps( u00, u01 );                            //   2  18   3  19   6  22   7  23  10  26  11  27  14  30  15  31
@@ -868,22 +868,22 @@ namespace v16
     __m512 t00, t01, t02, t03, t04, t05, t06, t07, t08, t09, t10, t11, t12, t13, t14, t15;
     __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    u00   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
+    u01   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
+    u02   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
+    u03   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
+    u04   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
+    u05   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
+    u06   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
+    u07   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
+    u08   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
+    u09   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
+    u10   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
+    u11   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
+    u12   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
+    u13   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
+    u14   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
+    u15   = _mm512_maskz_loadu_ps( 0x00ff, (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
 
     t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
     t01   = _mm512_unpackhi_ps( u00, u01 );                            //   2  18   3  19   6  22   7  23  10  26  11  27  14  30  15  31
-- 
2.43.0


From ed1a30c13dfef282c3548d647ba879da645eaf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 02/40] fix: legacy particle sort left a stale partition for an
 empty species

The cell partition is what collision operators and users read after a
sort. When the species had no particles the legacy (serial) sort returned
before writing it, so the partition of the last sort (or uninitialised
memory) stayed in place and described particles that no longer exist.
---
 src/species_advance/standard/sort_p.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/species_advance/standard/sort_p.cc b/src/species_advance/standard/sort_p.cc
index 935d6fa..bb5f35c 100644
--- a/src/species_advance/standard/sort_p.cc
+++ b/src/species_advance/standard/sort_p.cc
@@ -43,10 +43,6 @@ sort_p( species_t * sp )
 
   int i, j;
 
-  // Do not need to sort.
-  if ( np == 0 )
-    return;
-
   // Allocate the sorting intermediate. Making this into a static is done to
   // avoid heap shredding.
  
-- 
2.43.0


From d3cffc281234703da4967ada856a5f92b62e1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 03/40] fix: vector move_p could loop forever on a particle at
 rest against a face

A particle with exactly zero displacement along an axis that sits exactly
on a reflecting face of that axis was found to hit that face at fraction
zero of its streak over and over: the sign of the zero displacement, which
decides which face is looked at, is lost by the subtraction (or by the
portable copysign). The scalar version skips such an axis; do the same.
---
 src/species_advance/standard/move_p.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/species_advance/standard/move_p.cc b/src/species_advance/standard/move_p.cc
index d1c3b20..2bbad91 100644
--- a/src/species_advance/standard/move_p.cc
+++ b/src/species_advance/standard/move_p.cc
@@ -40,10 +40,11 @@ move_p( particle_t       * RESTRICT ALIGNED(128) p,
 
   v4float dr, r, u, q, q3;
   v4float sgn_dr, s, sdr;
-  v4float v0, v1, v2, v3, v4, v5, _stack_vf;
+  v4float v0, v1, v2, v3, v4, v5, _stack_vf, _stack_dr;
   v4int bits, _stack_vi;
 
   float * RESTRICT ALIGNED(16) stack_vf = (float *)&_stack_vf;
+  float * RESTRICT ALIGNED(16) stack_dr = (float *)&_stack_dr;
   int   * RESTRICT ALIGNED(16) stack_vi =   (int *)&_stack_vi;
   float f0, f1;
   int32_t n, voxel;
@@ -88,11 +89,15 @@ move_p( particle_t       * RESTRICT ALIGNED(128) p,
     // FIXME: THIS COULD PROBABLY BE DONE EVEN FASTER
     sgn_dr = copysign( one,  dr );
     v0     = copysign( tiny, dr );
+    // A particle that does not move along an axis never hits a face of
+    // that axis, even when it sits exactly on (or a rounding error
+    // beyond) that face.
     store_4x1( (sgn_dr-r) / ((dr+dr)+v0), stack_vf );
-    /**/                          type = 3;             f0 = 1;
-    f1 = stack_vf[0]; if( f1<f0 ) type = 0; if( f1<f0 ) f0 = f1; // Branchless cmov
-    f1 = stack_vf[1]; if( f1<f0 ) type = 1; if( f1<f0 ) f0 = f1;
-    f1 = stack_vf[2]; if( f1<f0 ) type = 2; if( f1<f0 ) f0 = f1;
+    store_4x1( dr, stack_dr );
+    /**/                                                    type = 3;             f0 = 1;
+    f1 = stack_dr[0]!=0 ? stack_vf[0] : 1; if( f1<f0 ) type = 0; if( f1<f0 ) f0 = f1; // Branchless cmov
+    f1 = stack_dr[1]!=0 ? stack_vf[1] : 1; if( f1<f0 ) type = 1; if( f1<f0 ) f0 = f1;
+    f1 = stack_dr[2]!=0 ? stack_vf[2] : 1; if( f1<f0 ) type = 2; if( f1<f0 ) f0 = f1;
     s = v4float( f0 );
 
     // At this point:
-- 
2.43.0


From d7562ad7bb6db916775dd4fa6b4416d5d276d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 04/40] fix: portable vector ! and copysign honour negative
 zero like the scalar operations

!x tested the bit pattern (so !(-0.f) was false) in the portable and AVX-512
implementations, and the portable copysign ignored the sign of -0.
---
 src/util/v16/v16_avx512.h   |  2 +-
 src/util/v16/v16_portable.h | 64 ++++++++++++++++++-------------------
 src/util/v4/v4_portable.h   | 16 +++++-----
 src/util/v8/v8_portable.h   | 32 +++++++++----------
 4 files changed, 57 insertions(+), 57 deletions(-)

diff --git a/src/util/v16/v16_avx512.h b/src/util/v16/v16_avx512.h
index df134be..8b25959 100644
--- a/src/util/v16/v16_avx512.h
+++ b/src/util/v16/v16_avx512.h
@@ -2529,7 +2529,7 @@ namespace v16
     v16int b;
 
     for( int j = 0; j < 16; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v16/v16_portable.h b/src/util/v16/v16_portable.h
index b71cb49..be33a7e 100644
--- a/src/util/v16/v16_portable.h
+++ b/src/util/v16/v16_portable.h
@@ -3623,22 +3623,22 @@ namespace v16
   {
     v16int b;
 
-    b.i[ 0] = a.i[ 0] ? 0 : -1;
-    b.i[ 1] = a.i[ 1] ? 0 : -1;
-    b.i[ 2] = a.i[ 2] ? 0 : -1;
-    b.i[ 3] = a.i[ 3] ? 0 : -1;
-    b.i[ 4] = a.i[ 4] ? 0 : -1;
-    b.i[ 5] = a.i[ 5] ? 0 : -1;
-    b.i[ 6] = a.i[ 6] ? 0 : -1;
-    b.i[ 7] = a.i[ 7] ? 0 : -1;
-    b.i[ 8] = a.i[ 8] ? 0 : -1;
-    b.i[ 9] = a.i[ 9] ? 0 : -1;
-    b.i[10] = a.i[10] ? 0 : -1;
-    b.i[11] = a.i[11] ? 0 : -1;
-    b.i[12] = a.i[12] ? 0 : -1;
-    b.i[13] = a.i[13] ? 0 : -1;
-    b.i[14] = a.i[14] ? 0 : -1;
-    b.i[15] = a.i[15] ? 0 : -1;
+    b.i[ 0] = a.f[ 0] ? 0 : -1;
+    b.i[ 1] = a.f[ 1] ? 0 : -1;
+    b.i[ 2] = a.f[ 2] ? 0 : -1;
+    b.i[ 3] = a.f[ 3] ? 0 : -1;
+    b.i[ 4] = a.f[ 4] ? 0 : -1;
+    b.i[ 5] = a.f[ 5] ? 0 : -1;
+    b.i[ 6] = a.f[ 6] ? 0 : -1;
+    b.i[ 7] = a.f[ 7] ? 0 : -1;
+    b.i[ 8] = a.f[ 8] ? 0 : -1;
+    b.i[ 9] = a.f[ 9] ? 0 : -1;
+    b.i[10] = a.f[10] ? 0 : -1;
+    b.i[11] = a.f[11] ? 0 : -1;
+    b.i[12] = a.f[12] ? 0 : -1;
+    b.i[13] = a.f[13] ? 0 : -1;
+    b.i[14] = a.f[14] ? 0 : -1;
+    b.i[15] = a.f[15] ? 0 : -1;
 
     return b;
   }
@@ -3871,67 +3871,67 @@ namespace v16
     float t;
 
     t = ::fabs( a.f[ 0] );
-    if( b.f[ 0] < 0 ) t = -t;
+    if( std::signbit( b.f[ 0] ) ) t = -t;
     c.f[ 0] = t;
 
     t = ::fabs( a.f[ 1] );
-    if( b.f[ 1] < 0 ) t = -t;
+    if( std::signbit( b.f[ 1] ) ) t = -t;
     c.f[ 1] = t;
 
     t = ::fabs( a.f[ 2] );
-    if( b.f[ 2] < 0 ) t = -t;
+    if( std::signbit( b.f[ 2] ) ) t = -t;
     c.f[ 2] = t;
 
     t = ::fabs( a.f[ 3] );
-    if( b.f[ 3] < 0 ) t = -t;
+    if( std::signbit( b.f[ 3] ) ) t = -t;
     c.f[ 3] = t;
 
     t = ::fabs( a.f[ 4] );
-    if( b.f[ 4] < 0 ) t = -t;
+    if( std::signbit( b.f[ 4] ) ) t = -t;
     c.f[ 4] = t;
 
     t = ::fabs( a.f[ 5] );
-    if( b.f[ 5] < 0 ) t = -t;
+    if( std::signbit( b.f[ 5] ) ) t = -t;
     c.f[ 5] = t;
 
     t = ::fabs( a.f[ 6] );
-    if( b.f[ 6] < 0 ) t = -t;
+    if( std::signbit( b.f[ 6] ) ) t = -t;
     c.f[ 6] = t;
 
     t = ::fabs( a.f[ 7] );
-    if( b.f[ 7] < 0 ) t = -t;
+    if( std::signbit( b.f[ 7] ) ) t = -t;
     c.f[ 7] = t;
 
     t = ::fabs( a.f[ 8] );
-    if( b.f[ 8] < 0 ) t = -t;
+    if( std::signbit( b.f[ 8] ) ) t = -t;
     c.f[ 8] = t;
 
     t = ::fabs( a.f[ 9] );
-    if( b.f[ 9] < 0 ) t = -t;
+    if( std::signbit( b.f[ 9] ) ) t = -t;
     c.f[ 9] = t;
 
     t = ::fabs( a.f[10] );
-    if( b.f[10] < 0 ) t = -t;
+    if( std::signbit( b.f[10] ) ) t = -t;
     c.f[10] = t;
 
     t = ::fabs( a.f[11] );
-    if( b.f[11] < 0 ) t = -t;
+    if( std::signbit( b.f[11] ) ) t = -t;
     c.f[11] = t;
 
     t = ::fabs( a.f[12] );
-    if( b.f[12] < 0 ) t = -t;
+    if( std::signbit( b.f[12] ) ) t = -t;
     c.f[12] = t;
 
     t = ::fabs( a.f[13] );
-    if( b.f[13] < 0 ) t = -t;
+    if( std::signbit( b.f[13] ) ) t = -t;
     c.f[13] = t;
 
     t = ::fabs( a.f[14] );
-    if( b.f[14] < 0 ) t = -t;
+    if( std::signbit( b.f[14] ) ) t = -t;
     c.f[14] = t;
 
     t = ::fabs( a.f[15] );
-    if( b.f[15] < 0 ) t = -t;
+    if( std::signbit( b.f[15] ) ) t = -t;
     c.f[15] = t;
 
     return c;
diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index 1298169..20d6a78 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -938,10 +938,10 @@ namespace v4
   {
     v4int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
 
     return b;
   }
@@ -1081,19 +1081,19 @@ namespace v4
     float t;
 
     t = ::fabs( a.f[0] );
-    if ( b.f[0] < 0 ) t = -t;
+    if( std::signbit( b.f[0] ) ) t = -t;
     c.f[0] = t;
 
     t = ::fabs( a.f[1] );
-    if ( b.f[1] < 0 ) t = -t;
+    if( std::signbit( b.f[1] ) ) t = -t;
     c.f[1] = t;
 
     t = ::fabs( a.f[2] );
-    if ( b.f[2] < 0 ) t = -t;
+    if( std::signbit( b.f[2] ) ) t = -t;
     c.f[2] = t;
 
     t = ::fabs( a.f[3] );
-    if ( b.f[3] < 0 ) t = -t;
+    if( std::signbit( b.f[3] ) ) t = -t;
     c.f[3] = t;
 
     return c;
diff --git a/src/util/v8/v8_portable.h b/src/util/v8/v8_portable.h
index e59b145..e51462e 100644
--- a/src/util/v8/v8_portable.h
+++ b/src/util/v8/v8_portable.h
@@ -1365,14 +1365,14 @@ namespace v8
   {
     v8int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
-    b.i[4] = a.i[4] ? 0 : -1;
-    b.i[5] = a.i[5] ? 0 : -1;
-    b.i[6] = a.i[6] ? 0 : -1;
-    b.i[7] = a.i[7] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
+    b.i[4] = a.f[4] ? 0 : -1;
+    b.i[5] = a.f[5] ? 0 : -1;
+    b.i[6] = a.f[6] ? 0 : -1;
+    b.i[7] = a.f[7] ? 0 : -1;
 
     return b;
   }
@@ -1541,35 +1541,35 @@ namespace v8
     float t;
 
     t = ::fabs( a.f[0] );
-    if( b.f[0] < 0 ) t = -t;
+    if( std::signbit( b.f[0] ) ) t = -t;
     c.f[0] = t;
 
     t = ::fabs( a.f[1] );
-    if( b.f[1] < 0 ) t = -t;
+    if( std::signbit( b.f[1] ) ) t = -t;
     c.f[1] = t;
 
     t = ::fabs( a.f[2] );
-    if( b.f[2] < 0 ) t = -t;
+    if( std::signbit( b.f[2] ) ) t = -t;
     c.f[2] = t;
 
     t = ::fabs( a.f[3] );
-    if( b.f[3] < 0 ) t = -t;
+    if( std::signbit( b.f[3] ) ) t = -t;
     c.f[3] = t;
 
     t = ::fabs( a.f[4] );
-    if( b.f[4] < 0 ) t = -t;
+    if( std::signbit( b.f[4] ) ) t = -t;
     c.f[4] = t;
 
     t = ::fabs( a.f[5] );
-    if( b.f[5] < 0 ) t = -t;
+    if( std::signbit( b.f[5] ) ) t = -t;
     c.f[5] = t;
 
     t = ::fabs( a.f[6] );
-    if( b.f[6] < 0 ) t = -t;
+    if( std::signbit( b.f[6] ) ) t = -t;
     c.f[6] = t;
 
     t = ::fabs( a.f[7] );
-    if( b.f[7] < 0 ) t = -t;
+    if( std::signbit( b.f[7] ) ) t = -t;
     c.f[7] = t;
 
     return c;
-- 
2.43.0


From 7f41e70d2f5b71d098b4bf820baedf6f1b345f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 05/40] fix: release the parameters of hard sphere and large
 angle Coulomb models

Their registered parameter objects were never unregistered, so every run using
one of these models failed at halt (objects still registered) with a non-zero
exit after completing.
---
 src/collision/binary.h               |  3 +++
 src/collision/hard_sphere.cc         | 36 +++++++++++++++++++++++++---
 src/collision/large_angle_coulomb.cc | 36 +++++++++++++++++++++++++---
 src/collision/unary.h                |  3 +++
 4 files changed, 72 insertions(+), 6 deletions(-)

diff --git a/src/collision/binary.h b/src/collision/binary.h
index aa16dd3..1dc06ec 100644
--- a/src/collision/binary.h
+++ b/src/collision/binary.h
@@ -17,6 +17,9 @@ typedef struct binary_collision_model
   int n_large_pr[ MAX_PIPELINE ];
 } binary_collision_model_t;
 
+void
+delete_binary_collision_model( collision_op_t * cop );
+
 void
 apply_binary_collision_model_pipeline( binary_collision_model_t * cm );
 
diff --git a/src/collision/hard_sphere.cc b/src/collision/hard_sphere.cc
index 495d922..192e6f1 100644
--- a/src/collision/hard_sphere.cc
+++ b/src/collision/hard_sphere.cc
@@ -1,4 +1,7 @@
-#include "collision.h"
+#define IN_collision
+
+#include "unary.h"
+#include "binary.h"
 
 /* Private interface *********************************************************/
 
@@ -359,6 +362,29 @@ restore_hard_sphere( void )
   return hs;
 }
 
+/* The model parameters are created and registered by the public interface
+   below and thus belong to the collision operator. */
+
+void
+delete_hard_sphere_fluid( collision_op_t * cop )
+{
+  hard_sphere_t * hs = (hard_sphere_t *)
+    ((unary_collision_model_t *)cop->params)->params;
+  delete_unary_collision_model( cop );
+  UNREGISTER_OBJECT( hs );
+  FREE( hs );
+}
+
+void
+delete_hard_sphere( collision_op_t * cop )
+{
+  hard_sphere_t * hs = (hard_sphere_t *)
+    ((binary_collision_model_t *)cop->params)->params;
+  delete_binary_collision_model( cop );
+  UNREGISTER_OBJECT( hs );
+  FREE( hs );
+}
+
 /* Public interface **********************************************************/
 
 collision_op_t *
@@ -396,10 +422,12 @@ hard_sphere_fluid( const char * RESTRICT name, /* Model name */
   hs->ut2          += FLT_MIN;
 
   REGISTER_OBJECT( hs, checkpt_hard_sphere, restore_hard_sphere, NULL );
-  return unary_collision_model( name,
+  collision_op_t * cop = unary_collision_model( name,
                    (unary_rate_constant_func_t)hard_sphere_fluid_rate_constant,
                    (unary_collision_func_t)    hard_sphere_fluid_collision,
                                 hs, sp, rp, interval );
+  cop->delete_cop = delete_hard_sphere_fluid;
+  return cop;
 }
 
 collision_op_t *
@@ -424,8 +452,10 @@ hard_sphere( const char * RESTRICT name, /* Model name */
   hs->Kc       = spi->g->cvac*M_PI*(ri+rj)*(ri+rj);
 
   REGISTER_OBJECT( hs, checkpt_hard_sphere, restore_hard_sphere, NULL );
-  return binary_collision_model( name,
+  collision_op_t * cop = binary_collision_model( name,
                         (binary_rate_constant_func_t)hard_sphere_rate_constant,
                         (binary_collision_func_t)    hard_sphere_collision,
                                  hs, spi, spj, rp, sample, interval );
+  cop->delete_cop = delete_hard_sphere;
+  return cop;
 }
diff --git a/src/collision/large_angle_coulomb.cc b/src/collision/large_angle_coulomb.cc
index d2e2845..ca5f328 100644
--- a/src/collision/large_angle_coulomb.cc
+++ b/src/collision/large_angle_coulomb.cc
@@ -1,4 +1,7 @@
-#include "collision.h"
+#define IN_collision
+
+#include "unary.h"
+#include "binary.h"
 
 /* Private interface *********************************************************/
 
@@ -207,6 +210,29 @@ restore_large_angle_coulomb( void )
   return lac;
 }
 
+/* The model parameters are created and registered by the public interface
+   below and thus belong to the collision operator. */
+
+void
+delete_large_angle_coulomb_fluid( collision_op_t * cop )
+{
+  large_angle_coulomb_t * lac = (large_angle_coulomb_t *)
+    ((unary_collision_model_t *)cop->params)->params;
+  delete_unary_collision_model( cop );
+  UNREGISTER_OBJECT( lac );
+  FREE( lac );
+}
+
+void
+delete_large_angle_coulomb( collision_op_t * cop )
+{
+  large_angle_coulomb_t * lac = (large_angle_coulomb_t *)
+    ((binary_collision_model_t *)cop->params)->params;
+  delete_binary_collision_model( cop );
+  UNREGISTER_OBJECT( lac );
+  FREE( lac );
+}
+
 /* Public interface **********************************************************/
 
 collision_op_t *
@@ -251,10 +277,12 @@ large_angle_coulomb_fluid(
   REGISTER_OBJECT( lac,
                    checkpt_large_angle_coulomb,
                    restore_large_angle_coulomb, NULL );
-  return unary_collision_model( name,
+  collision_op_t * cop = unary_collision_model( name,
            (unary_rate_constant_func_t)large_angle_coulomb_fluid_rate_constant,
            (unary_collision_func_t)    large_angle_coulomb_fluid_collision,
                                 lac, sp, rp, interval );
+  cop->delete_cop = delete_large_angle_coulomb_fluid;
+  return cop;
 }
 
 collision_op_t *
@@ -282,8 +310,10 @@ large_angle_coulomb( const char * RESTRICT name, /* Model name */
   REGISTER_OBJECT( lac,
                    checkpt_large_angle_coulomb,
                    restore_large_angle_coulomb, NULL );
-  return binary_collision_model( name,
+  collision_op_t * cop = binary_collision_model( name,
                 (binary_rate_constant_func_t)large_angle_coulomb_rate_constant,
                 (binary_collision_func_t)    large_angle_coulomb_collision,
                                  lac, spi, spj, rp, sample, interval );
+  cop->delete_cop = delete_large_angle_coulomb;
+  return cop;
 }
diff --git a/src/collision/unary.h b/src/collision/unary.h
index c14b92b..0cd008f 100644
--- a/src/collision/unary.h
+++ b/src/collision/unary.h
@@ -15,6 +15,9 @@ typedef struct unary_collision_model
   int n_large_pr[ MAX_PIPELINE ];
 } unary_collision_model_t;
 
+void
+delete_unary_collision_model( collision_op_t * cop );
+
 void
 apply_unary_collision_model_pipeline( unary_collision_model_t * cm );
 
-- 
2.43.0


From 97e94f133f06362a3d57aabaf8278e1a2028e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 06/40] fix: do not age an injected particle past the end of
 the mover array

inject_particle only warned when no mover was left and then wrote the
mover past the end of the species' mover storage.
---
 src/vpic/misc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vpic/misc.cc b/src/vpic/misc.cc
index b1c24af..4ece4cb 100644
--- a/src/vpic/misc.cc
+++ b/src/vpic/misc.cc
@@ -84,8 +84,10 @@ vpic_simulation::inject_particle( species_t * sp,
   if( update_rhob ) accumulate_rhob( field_array->f, p, grid, -sp->q );
 
   if( age!=0 ) {
-    if( sp->nm>=sp->max_nm )
+    if( sp->nm>=sp->max_nm ) {
       WARNING(( "No movers available to age injected  particle" ));
+      return;
+    }
     particle_mover_t * pm = sp->pm + sp->nm;
     age *= grid->cvac*grid->dt/sqrt( ux*ux + uy*uy + uz*uz + 1 );
     pm->dispx = ux*age*grid->rdx;
-- 
2.43.0


From 7a344575bce0e7588b17c815ee21a239d81f7cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 07/40] fix: synchronise pipeline completion flags and start-up
 with acquire/release

The completion flag of a pipeline and its start-up state were plain
volatile ints, read by the host without the lock under which the pipeline
writes them: nothing ordered the pipeline's results before its flag.
---
 src/util/pipelines/pipelines_thread.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/pipelines/pipelines_thread.cc b/src/util/pipelines/pipelines_thread.cc
index 875b42d..fbbc7a1 100644
--- a/src/util/pipelines/pipelines_thread.cc
+++ b/src/util/pipelines/pipelines_thread.cc
@@ -223,7 +223,7 @@ thread_boot( int * pargc,
     // this happens, it is not the library's fault (O/S or pthreads
     // screwed up)
 
-    while( Pipeline[i].state != PIPELINE_SLEEP ) nanodelay(50);
+    while( __atomic_load_n( &Pipeline[i].state, __ATOMIC_ACQUIRE ) != PIPELINE_SLEEP ) nanodelay(50);
 
   }
 
@@ -492,7 +492,7 @@ pipeline_mgr(void *_pipeline) {
 
       if( pipeline->func )
         pipeline->func( pipeline->args, pipeline->job, pipeline->n_job );
-      if( pipeline->flag ) *pipeline->flag = 1;
+      if( pipeline->flag ) __atomic_store_n( pipeline->flag, 1, __ATOMIC_RELEASE );
 
       // Pass through into the next case
 
@@ -504,7 +504,7 @@ pipeline_mgr(void *_pipeline) {
       // mutex while the pipeline is sleeping and locks it when the
       // pipeline wakes up
 
-      pipeline->state = PIPELINE_SLEEP;
+      __atomic_store_n( &pipeline->state, (int)PIPELINE_SLEEP, __ATOMIC_RELEASE );
       pthread_cond_wait( &pipeline->wake, &pipeline->mutex );
 
       break;
@@ -560,7 +560,7 @@ thread_wait( void ) {
 
   id = 0;
   while( id<thread.n_pipeline ) {
-    if( Done[id] ) id++;
+    if( __atomic_load_n( &Done[id], __ATOMIC_ACQUIRE ) ) id++;
     else           nanodelay(5);
   }
 
-- 
2.43.0


From 22387ef5ecc96574ff8e8421856adb0878d097ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 08/40] fix: sort pipelines no longer write the partition entry
 of the next pipeline

Two subsort pipelines (or a pipeline and the host) stored the same
partition entry at the same time; its owner writes it anyway.
---
 src/species_advance/standard/pipeline/sort_p_pipeline.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/species_advance/standard/pipeline/sort_p_pipeline.cc b/src/species_advance/standard/pipeline/sort_p_pipeline.cc
index bafd2dc..9da077f 100644
--- a/src/species_advance/standard/pipeline/sort_p_pipeline.cc
+++ b/src/species_advance/standard/pipeline/sort_p_pipeline.cc
@@ -190,8 +190,8 @@ subsort_pipeline_scalar( sort_p_pipeline_args_t * args,
       partition[v]  = sum;
       sum          += count;
     }
-    // All subsorts who write this agree.
-    partition[v1] = sum;
+    // partition[v1] belongs to the subsort (or to the host, for the ghost
+    // voxels) that follows.
 
     // Local fine grained sort.
     for( i = i0; i < i1; i++ )
-- 
2.43.0


From 2c357f3007b25dd9e147965e95db21637ca27a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 09/40] fix: vector clean_div_b no longer writes back the
 divergence error other pipelines read

---
 src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc | 2 +-
 src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc  | 2 +-
 src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
index 098ab95..ff83623 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
@@ -140,7 +140,7 @@ clean_div_b_pipeline_v16( pipeline_args_t * args,
     f0_cby = fma( f0_div_b_err - fy_div_b_err, py, f0_cby );
     f0_cbz = fma( f0_div_b_err - fz_div_b_err, pz, f0_cbz );
 
-    store_16x4_tr( f0_cbx, f0_cby, f0_cbz, f0_div_b_err,
+    store_16x3_tr( f0_cbx, f0_cby, f0_cbz,
                    &f000->cbx, &f001->cbx, &f002->cbx, &f003->cbx,
                    &f004->cbx, &f005->cbx, &f006->cbx, &f007->cbx,
                    &f008->cbx, &f009->cbx, &f010->cbx, &f011->cbx,
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
index 058dc9a..aeefbcb 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
@@ -104,7 +104,7 @@ clean_div_b_pipeline_v4( pipeline_args_t * args,
     f0_cby = fma( f0_div_b_err - fy_div_b_err, py, f0_cby );
     f0_cbz = fma( f0_div_b_err - fz_div_b_err, pz, f0_cbz );
 
-    store_4x4_tr( f0_cbx, f0_cby, f0_cbz, f0_div_b_err,
+    store_4x3_tr( f0_cbx, f0_cby, f0_cbz,
                   &f00->cbx, &f01->cbx, &f02->cbx, &f03->cbx );
   }
 
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
index 66ea318..214e447 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
@@ -116,7 +116,7 @@ clean_div_b_pipeline_v8( pipeline_args_t * args,
     f0_cby = fma( f0_div_b_err - fy_div_b_err, py, f0_cby );
     f0_cbz = fma( f0_div_b_err - fz_div_b_err, pz, f0_cbz );
 
-    store_8x4_tr( f0_cbx, f0_cby, f0_cbz, f0_div_b_err,
+    store_8x3_tr( f0_cbx, f0_cby, f0_cbz,
                   &f00->cbx, &f01->cbx, &f02->cbx, &f03->cbx,
                   &f04->cbx, &f05->cbx, &f06->cbx, &f07->cbx );
   }
-- 
2.43.0


From ab3df165b0e67febc80db76aea748bc20187db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 10/40] fix: OpenMP EXEC_PIPELINES advances per-pipeline
 arguments by whole elements

---
 src/util/pipelines/pipelines_exec_omp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/pipelines/pipelines_exec_omp.h b/src/util/pipelines/pipelines_exec_omp.h
index bbd24a8..256e490 100644
--- a/src/util/pipelines/pipelines_exec_omp.h
+++ b/src/util/pipelines/pipelines_exec_omp.h
@@ -30,7 +30,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_v16( args+id*sizeof(*args)*str, id, N_PIPELINE );    \
+      name##_pipeline_v16( args+id*str, id, N_PIPELINE );    \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
@@ -49,7 +49,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_v8( args+id*sizeof(*args)*str, id, N_PIPELINE );     \
+      name##_pipeline_v8( args+id*str, id, N_PIPELINE );     \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
@@ -68,7 +68,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_v4( args+id*sizeof(*args)*str, id, N_PIPELINE );     \
+      name##_pipeline_v4( args+id*str, id, N_PIPELINE );     \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
@@ -87,7 +87,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_scalar( args+id*sizeof(*args)*str, id, N_PIPELINE ); \
+      name##_pipeline_scalar( args+id*str, id, N_PIPELINE ); \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
-- 
2.43.0


From c150ffdec1140fe34ee45d1ec9a650aef56e5023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 11/40] fix: export the symbols of decks built by bin/vpic so
 that checkpoints can be restored

---
 CMakeLists.txt | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 826a3f5..6b249d5 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -320,9 +320,8 @@ endif(VPIC_PRINT_MORE_DIGITS)
 # Allow files to be references from the root, (eg #include "src/vpic/vpic.h")
 include_directories(${PROJECT_SOURCE_DIR})
 
-if(BUILD_SHARED_LIBS)
-    set(VPIC_CXX_FLAGS "-rdynamic ${VPIC_CXX_FLAGS}")
-endif(BUILD_SHARED_LIBS)
+# Checkpoints store functions by symbol name: the deck must export its symbols
+set(VPIC_CXX_FLAGS "-rdynamic ${VPIC_CXX_FLAGS}")
 
 if(ENABLE_COVERAGE_BUILD)
     set(VPIC_CXX_FLAGS "${VPIC_CXX_FLAGS} --coverage")
-- 
2.43.0


From 3f7680dccbc3cdf8e7908fd25139d1e77bb1c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 12/40] fix: a checkpointed symbol address that no longer
 exists is an error, not a crash

---
 src/util/checkpt/checkpt.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/util/checkpt/checkpt.cc b/src/util/checkpt/checkpt.cc
index 7ed1d32..5c5ea5f 100644
--- a/src/util/checkpt/checkpt.cc
+++ b/src/util/checkpt/checkpt.cc
@@ -647,7 +647,6 @@ find_saddr( const char * sname,
 void
 checkpt_sym( const void * saddr ) {
   Dl_info dli[1];
-  const char * err;
 
   /* If the symbol is NULL, checkpoint a NULL symbol header */
   
@@ -658,10 +657,8 @@ checkpt_sym( const void * saddr ) {
 
   /* Do a reverse symbol lookup */
 
-  dlerror();
+  CLEAR( dli, 1 ); // dladdr leaves it alone when it finds nothing
   dladdr( saddr, dli );
-  err = dlerror();
-  if( err ) ERROR(( "dladdr: %s", err ));
 
   if( saddr==find_saddr( dli->dli_sname, dli->dli_fname ) ) {
 
@@ -706,7 +703,6 @@ restore_sym( void ) {
   void * saddr;
   char * sname, * fname;
   Dl_info dli[1];
-  const char * err;
 
   /* Read the symbol header */
 
@@ -757,10 +753,10 @@ restore_sym( void ) {
 
     /* Check to see if the symbol address makes any sense currently. */
     
-    dlerror();
-    dladdr( saddr, dli );
-    err = dlerror();
-    if( err ) ERROR(( "dladdr: %s", err ));
+    if( !dladdr( saddr, dli ) )
+      ERROR(( "Read a symbol that was saved unsafely as the symbol's "
+              "address (%lx) in the old symbol table.  There is nothing at "
+              "that address in the current process.", (unsigned long)saddr ));
     if( saddr==find_saddr( dli->dli_sname, dli->dli_fname ) )
       WARNING(( "Read a symbol that was saved unsafely as the symbol's "
                 "address (%lx) in the old symbol table.  This address "
-- 
2.43.0


From 41632774565ecd1e464ef202e6bbb677be2ba260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 13/40] fix: OpenMP builds refuse a checkpoint made with
 another number of pipelines

---
 src/util/boot.cc                       |  1 +
 src/util/pipelines/pipelines_helper.cc | 30 +++++++++++++++++++++++++-
 src/util/pipelines/pipelines_openmp.h  |  3 +++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/util/boot.cc b/src/util/boot.cc
index e073c30..36e79f2 100644
--- a/src/util/boot.cc
+++ b/src/util/boot.cc
@@ -80,6 +80,7 @@ halt_services( void )
   #endif
 
 #elif defined(VPIC_USE_OPENMP)
+  omp_helper.halt();
   halt_mp();
 
 #endif
diff --git a/src/util/pipelines/pipelines_helper.cc b/src/util/pipelines/pipelines_helper.cc
index 60c6d80..1b94aab 100644
--- a/src/util/pipelines/pipelines_helper.cc
+++ b/src/util/pipelines/pipelines_helper.cc
@@ -4,6 +4,23 @@
 
 #include <omp.h>
 
+#include "../checkpt/checkpt.h"
+
+void
+checkpt_omp( const omp_container_t * _omp ) {
+  CHECKPT_VAL( int, omp_helper.n_pipeline );
+}
+
+omp_container_t *
+restore_omp( void ) {
+  int n_pipeline;
+  RESTORE_VAL( int, n_pipeline );
+  if( omp_helper.n_pipeline!=n_pipeline )
+    ERROR(( "--tpp changed between checkpt (%i) and restore (%i)",
+            n_pipeline, omp_helper.n_pipeline ));
+  return &omp_helper;
+}
+
 // omp_boot - mimics thread_boot - see 'pipelines_thread.c'
 
 static void
@@ -27,6 +44,16 @@ omp_boot( int * pargc,
   //assign our helper values
   omp_helper.n_pipeline       = n_pipeline;
   omp_helper.dispatch_to_host = dispatch_to_host;
+
+  REGISTER_OBJECT( &omp_helper, checkpt_omp, restore_omp, NULL );
+}
+
+static void
+omp_halt( void )
+{
+  UNREGISTER_OBJECT( &omp_helper );
+
+  omp_helper.n_pipeline = 0;
 }
 
 /*
@@ -42,7 +69,8 @@ omp_util( int * pargc,
 omp_container_t omp_helper = {
   0,
   0,
-  omp_boot
+  omp_boot,
+  omp_halt
 };
 
 #endif
diff --git a/src/util/pipelines/pipelines_openmp.h b/src/util/pipelines/pipelines_openmp.h
index d76429d..dcb66ad 100644
--- a/src/util/pipelines/pipelines_openmp.h
+++ b/src/util/pipelines/pipelines_openmp.h
@@ -34,6 +34,9 @@ typedef struct omp_container
   void
   (*boot)( int * pargc,
 	   char *** pargv );
+
+  //halt takes back what boot registered
+  void (*halt)( void );
 } omp_container_t;
 
 BEGIN_C_DECLS
-- 
2.43.0


From 6b65f9f07fa9e9917be50f0879bc6729d4bcdf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 14/40] fix: short reads and writes of a checkpoint are errors

---
 src/util/checkpt/checkpt_io.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/checkpt/checkpt_io.h b/src/util/checkpt/checkpt_io.h
index 2dd6513..0570cce 100644
--- a/src/util/checkpt/checkpt_io.h
+++ b/src/util/checkpt/checkpt_io.h
@@ -48,8 +48,10 @@ struct CheckPtIO {
 
 		FileIO * fileIO = reinterpret_cast<FileIO *>(checkpt);
 
-		// FIXME: add return values
-		fileIO->read(reinterpret_cast<char *>(data), sz);
+		if(fileIO->read(reinterpret_cast<char *>(data), sz) != sz) {
+			ERROR(("Unable to read %lu bytes from the checkpt",
+				(unsigned long)sz));
+		} // if
 	} // checkpt_read
 
 	static void checkpt_write(checkpt_t * checkpt, const void * data,
@@ -59,8 +61,10 @@ struct CheckPtIO {
 
 		FileIO * fileIO = reinterpret_cast<FileIO *>(checkpt);
 
-		// FIXME: add return values
-		fileIO->write(reinterpret_cast<const char *>(data), sz);
+		if(fileIO->write(reinterpret_cast<const char *>(data), sz) != sz) {
+			ERROR(("Unable to write %lu bytes to the checkpt",
+				(unsigned long)sz));
+		} // if
 	} // checkpt_write
 
 }; // struct CheckPtIO
-- 
2.43.0


From b82e8570c4b5087bec3b95689cb011dbd915a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 15/40] fix: boundary_p does not offset a null injector pointer

---
 src/boundary/boundary_p.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/boundary/boundary_p.cc b/src/boundary/boundary_p.cc
index c83ce94..6c0b385 100644
--- a/src/boundary/boundary_p.cc
+++ b/src/boundary/boundary_p.cc
@@ -640,7 +640,7 @@ boundary_p( particle_bc_t       * RESTRICT pbc_list,
       // WARNING: THIS TRUSTS THAT THE INJECTORS, INCLUDING THOSE
       // RECEIVED FROM OTHER NODES, HAVE VALID PARTICLE IDS.
 
-      pi += n - 1;
+      if ( n ) pi += n - 1; // pi may be NULL when there is nothing to inject
 
       for( ; n; pi--, n-- )
       {
-- 
2.43.0


From 5f83d2132c36affb3138545060fb814d6aa06dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 16/40] fix: a restored simulation is deleted with the
 allocator that created it

---
 src/vpic/vpic.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vpic/vpic.h b/src/vpic/vpic.h
index 55c04c2..d275ca0 100644
--- a/src/vpic/vpic.h
+++ b/src/vpic/vpic.h
@@ -121,6 +121,14 @@ class vpic_simulation {
 public:
   vpic_simulation();
   ~vpic_simulation();
+
+  // A simulation is created either by new or, when restoring, by
+  // RESTORE (which MALLOCs it).  Allocate both the same way such that
+  // delete is valid for both.
+
+  void * operator new( size_t sz ) { char * p; MALLOC( p, sz ); return p; }
+  void operator delete( void * p ) { FREE( p ); }
+
   void initialize( int argc, char **argv );
   void modify( const char *fname );
   int advance( void );
-- 
2.43.0


From 8ec8710932bb030edb37cd035ca56a9c10a6266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 17/40] fix: dump_species writes one species per line

---
 src/vpic/dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 89c05f2..9108a46 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -89,7 +89,7 @@ vpic_simulation::dump_species( const char *fname ) {
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
   LIST_FOR_EACH( sp, species_list )
-    fileIO.print( "%s %i %e %e", sp->name, sp->id, sp->q, sp->m );
+    fileIO.print( "%s %i %e %e\n", sp->name, sp->id, sp->q, sp->m );
   if( fileIO.close() ) ERROR(( "File close failed on dump species!!!" ));
 }
 
-- 
2.43.0


From e555d370707411108a01394c1605c1b832d1c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 18/40] fix: strided dumps do not shift the dimensions that
 have a stride of one

---
 src/vpic/dump.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 9108a46..8bc0062 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -653,9 +653,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
     else
     {
       for(size_t v(0); v<numvars; v++) {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
               fileIO.write(&fref[varlist[v]], 1);
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
@@ -690,9 +690,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
 
     else
     {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
             fileIO.write( &f( ioff, joff, koff ), 1 );
       }
       }
@@ -819,9 +819,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
     else
 
       for(size_t v(0); v<numvars; v++)
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
               const uint32_t * href = reinterpret_cast<uint32_t *>(&hydro(ioff,joff,koff));
               fileIO.write(&href[varlist[v]], 1);
       }
@@ -852,9 +852,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From b2b2e6f2d957ba96fc6b9a8048deabb8019e3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 19/40] fix: band interleaved hydro dumps include the ghost
 cells their indexing assumes

---
 src/vpic/dump.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 8bc0062..b0b3efa 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -837,9 +837,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
   {
     WRITE_HEADER_V0( dump_type::hydro_dump, sp->id, sp->q/sp->m, dumpStep, fileIO );
 
-    dim[0] = nxout;
-    dim[1] = nyout;
-    dim[2] = nzout;
+    dim[0] = nxout+2;
+    dim[1] = nyout+2;
+    dim[2] = nzout+2;
 
     WRITE_ARRAY_HEADER(h, 3, dim, fileIO);
 
@@ -852,9 +852,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
-      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
-      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From b393a1f191b2b518456cc786b0d79523b4618968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 20/40] fix: banded field dumps write material ids rather than
 data of the next voxel

---
 src/vpic/dump.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index b0b3efa..df94139 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -10,6 +10,7 @@
  */
 
 #include <cassert>
+#include <cstddef>
 
 #include "vpic.h"
 #include "dumpmacros.h"
@@ -530,6 +531,19 @@ vpic_simulation::global_header( const char * base,
   if( fileIO.close() ) ERROR(( "File close failed on global header!!!" ));
 }
 
+// Write one of the total_field_variables of a field_t.  The material ids
+// that follow the floating point variables are material_ids.
+
+static void
+write_field_variable( FileIO & fileIO,
+                      const field_t & f,
+                      size_t v )
+{
+  const size_t n_float = offsetof( field_t, ematx ) / sizeof(float);
+  if( v<n_float ) fileIO.write( &f.ex    + v,           1 );
+  else            fileIO.write( &f.ematx + (v-n_float), 1 );
+}
+
 void
 vpic_simulation::field_dump( DumpParameters & dumpParams,
 			     field_t *f,
@@ -640,8 +654,7 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t k(0); k<nzout+2; k++) {
       for(size_t j(0); j<nyout+2; j++) {
       for(size_t i(0); i<nxout+2; i++) {
-              const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(i,j,k));
-              fileIO.write(&fref[varlist[v]], 1);
+              write_field_variable( fileIO, f(i,j,k), varlist[v] );
               if(rank()==VERBOSE_rank) printf("%f ", f(i,j,k).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << i << " " << j << " " << k << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << j << " " << k << std::endl;
@@ -656,8 +669,7 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-(kstride>1);
       for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-(jstride>1);
       for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-(istride>1);
-              const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
-              fileIO.write(&fref[varlist[v]], 1);
+              write_field_variable( fileIO, f(ioff,joff,koff), varlist[v] );
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << ioff << " " << joff << " " << koff << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << joff << " " << koff << std::endl;
-- 
2.43.0


From ab09b4f2c516145adea837c4e2a77c45005ffa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 21/40] fix: shuffle truncated its 64-bit rand and divisor to
 32 bits and was not uniform

---
 src/util/rng/rng.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/rng/rng.cc b/src/util/rng/rng.cc
index 4215670..c343ce4 100644
--- a/src/util/rng/rng.cc
+++ b/src/util/rng/rng.cc
@@ -489,7 +489,7 @@ shuffle( rng_t * RESTRICT r,
          size_t sz_ele,
          size_t str_ele,
          size_t n_ele ) {
-  uint32_t a, d;
+  uint64_t a, d;
   size_t i, j, k;
 
   if( n_ele<2 || !sz_ele ) return _x;
-- 
2.43.0


From 45fc0b0b598a7661f7099eee119a1d59d600a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 22/40] fix: mp_size_recv_buffer and mp_size_send_buffer
 accepted a port one past the last

---
 src/util/mp/DMPPolicy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/mp/DMPPolicy.h b/src/util/mp/DMPPolicy.h
index 535e14b..4b783fc 100644
--- a/src/util/mp/DMPPolicy.h
+++ b/src/util/mp/DMPPolicy.h
@@ -245,7 +245,7 @@ struct DMPPolicy {
                        int sz ) {
     char * ALIGNED(128) buf;
   
-    if( !mp || port<0 || port>mp->n_port || sz<1 ) ERROR(( "Bad args" ));
+    if( !mp || port<0 || port>=mp->n_port || sz<1 ) ERROR(( "Bad args" ));
   
     // If there already a large enough buffer, we are done
     if( mp->rbuf_sz[port]>=sz ) return;
@@ -276,7 +276,7 @@ struct DMPPolicy {
     char * ALIGNED(128) buf;
   
     // Check input arguments
-    if( !mp || port<0 || port>mp->n_port || sz<1 ) ERROR(( "Bad args" ));
+    if( !mp || port<0 || port>=mp->n_port || sz<1 ) ERROR(( "Bad args" ));
 
     // Is there already a large enough buffer
     if( mp->sbuf_sz[port]>=sz ) return;
-- 
2.43.0


From 17364d138660344c53a6921aea5b5d3beb3b8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 23/40] fix: mp buffer sizes above 1.6 GB overflowed when
 padded for growth

---
 src/util/mp/DMPPolicy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/mp/DMPPolicy.h b/src/util/mp/DMPPolicy.h
index 4b783fc..272b2ac 100644
--- a/src/util/mp/DMPPolicy.h
+++ b/src/util/mp/DMPPolicy.h
@@ -251,7 +251,7 @@ struct DMPPolicy {
     if( mp->rbuf_sz[port]>=sz ) return;
 
     // Try to reduce the number of reallocs
-    sz = (int)( sz*(double)RESIZE_FACTOR );
+    if( sz<INT_MAX/RESIZE_FACTOR ) sz = (int)( sz*(double)RESIZE_FACTOR );
 
     // If no buffer allocated for this port, malloc it and return
     if( !mp->rbuf[port] ) {
@@ -282,7 +282,7 @@ struct DMPPolicy {
     if( mp->sbuf_sz[port]>=sz ) return;
 
     // Try to reduce the number of reallocs
-    sz = (int)( sz*(double)RESIZE_FACTOR );
+    if( sz<INT_MAX/RESIZE_FACTOR ) sz = (int)( sz*(double)RESIZE_FACTOR );
   
     // If no buffer allocated for this port, malloc it and return
     if( !mp->sbuf[port] ) {
-- 
2.43.0


From d785d2847b7abf814a1a26c23b4fe74c98450cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 24/40] fix: child_langmuir emitted all but the first particle
 of a face with a wrong weight

---
 src/emitter/child_langmuir.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emitter/child_langmuir.cc b/src/emitter/child_langmuir.cc
index cbeb5c2..d2945bb 100644
--- a/src/emitter/child_langmuir.cc
+++ b/src/emitter/child_langmuir.cc
@@ -66,7 +66,7 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
   int np = sp->np, np_skipped = 0;
   int nm = sp->nm, nm_skipped = 0;
 
-  float w, ux, uy, uz;
+  float w, age, ux, uy, uz;
   int c, cc, i, np_emit;
 
   // Loop over all components of the region
@@ -104,12 +104,12 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
         /* Age the particle */                                          \
                                                                         \
         if( nm>=max_nm ) { nm_skipped++; continue; }                    \
-        w = ( frand_c0(rng)*cdt ) /                                     \
+        age = ( frand_c0(rng)*cdt ) /                                   \
           sqrtf( ( u##X*u##X + u##Y*u##Y ) + ( u##Z*u##Z + 1 ) );       \
         DECLARE_ALIGNED_ARRAY( particle_mover_t, 16, local_pm, 1 );     \
-        local_pm->disp##X = w*u##X*rd##X;                               \
-        local_pm->disp##Y = w*u##Y*rd##Y;                               \
-        local_pm->disp##Z = w*u##Z*rd##Z;                               \
+        local_pm->disp##X = age*u##X*rd##X;                             \
+        local_pm->disp##Y = age*u##Y*rd##Y;                             \
+        local_pm->disp##Z = age*u##Z*rd##Z;                             \
         local_pm->i       = np-1;                                       \
         if (move_p( p, local_pm, a, g, qsp )) {                         \
             pm[nm++] = local_pm[0];                                     \
-- 
2.43.0


From 2e662a9fdb30c4365ec506aa74e540c5ec47384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 25/40] fix: child_langmuir was declared with its two
 temperatures named in the wrong order

---
 src/emitter/emitter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emitter/emitter.h b/src/emitter/emitter.h
index 4efc8c4..c4fc441 100644
--- a/src/emitter/emitter.h
+++ b/src/emitter/emitter.h
@@ -70,8 +70,8 @@ child_langmuir( /**/  species_t            * RESTRICT sp,  // Species to emit
                 /**/  accumulator_array_t  * RESTRICT aa,  // For Jf accum (aging)
                 /**/  rng_pool_t           * RESTRICT rp,  // Random number pool
                 int   n_emit_per_face, // Particles to emit per face per step
-                float ut_perp,         // Perpendicular normalized thermal momentum
                 float ut_para,         // Parallel normalized thermal momentum
+                float ut_perp,         // Perpendicular normalized thermal momentum
                 float thresh_e_norm,   // Only emit if E_norm>thresh_e_norm
                 float norm );          // Child-langmuir normalization
 
-- 
2.43.0


From 648b3603d363a16d8683f221e53d4dcfd4aebb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 26/40] fix: deleting a maxwellian_reflux boundary leaked its
 temperature tables

---
 src/boundary/maxwellian_reflux.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/boundary/maxwellian_reflux.cc b/src/boundary/maxwellian_reflux.cc
index b4f411f..698795f 100644
--- a/src/boundary/maxwellian_reflux.cc
+++ b/src/boundary/maxwellian_reflux.cc
@@ -202,6 +202,9 @@ restore_maxwellian_reflux( void ) {
 
 void
 delete_maxwellian_reflux( particle_bc_t * RESTRICT pbc ) {
+  maxwellian_reflux_t * mr = (maxwellian_reflux_t *)pbc->params;
+  FREE( mr->ut_perp );
+  FREE( mr->ut_para );
   FREE( pbc->params );
   delete_particle_bc_internal( pbc );
 }
-- 
2.43.0


From 574ab85ce604182b0dde52ea6d1a08ab029767e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 27/40] fix: the number of pairs in a crowded cell overflowed
 and turned its collisions off

---
 src/collision/pipeline/binary_pipeline.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/collision/pipeline/binary_pipeline.cc b/src/collision/pipeline/binary_pipeline.cc
index e359530..684a720 100644
--- a/src/collision/pipeline/binary_pipeline.cc
+++ b/src/collision/pipeline/binary_pipeline.cc
@@ -41,7 +41,8 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
   const float  dtinterval_dV = ( g->dt * (float)cm->interval ) / g->dV;
 
   float pr_norm, pr_coll, wk, wl, w_max, w_min;
-  int v, v1, k, k0, nk, rk, l, l0, nl, rl, np, nc, type, n_large_pr = 0;
+  double np;
+  int v, v1, k, k0, nk, rk, l, l0, nl, rl, nc, type, n_large_pr = 0;
 
   /* Stripe the (mostly non-ghost) voxels over threads for load balance */
 
@@ -80,7 +81,7 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
       l0 = k0;
       nl = nk;
       rl = rk;
-      np = nk*(nk+1) >> 1;
+      np = 0.5*(double)nk*(double)(nk+1);
       nc = (int)( 0.5 + sample*(double)nk );
     }
 
@@ -97,7 +98,7 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
       nl = spj_partition[v+1] - l0;
       if( !nl ) continue; /* Nothing to do */
       rl = UINT_MAX / (unsigned)nl;
-      np = nk*nl;
+      np = (double)nk*(double)nl;
       nc = (int)( 0.5 + sample*(double)(nk>nl ? nk : nl) );
     }
 
-- 
2.43.0


From de4c5a9cb7a9f2a73d2bbb3bafb2426197860bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 28/40] fix: pairs drawn in a cell of more than 65536 particles
 could lie outside the cell

---
 src/collision/pipeline/binary_pipeline.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/pipeline/binary_pipeline.cc b/src/collision/pipeline/binary_pipeline.cc
index 684a720..c63b2cc 100644
--- a/src/collision/pipeline/binary_pipeline.cc
+++ b/src/collision/pipeline/binary_pipeline.cc
@@ -118,8 +118,8 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
          of getting k on 0:nk-1 and l on 0:nl-1 and uses the
          preferred high order randgen bits). */
   
-      do { k = (int)(uirand(rng)/rk); } while( k==nk ); k += k0;
-      do { l = (int)(uirand(rng)/rl); } while( l==nl ); l += l0;
+      do { k = (int)(uirand(rng)/rk); } while( k>=nk ); k += k0;
+      do { l = (int)(uirand(rng)/rl); } while( l>=nl ); l += l0;
      
       /* Compute the probability that a physical particle in the
          species whose candidate computational particle has the least
-- 
2.43.0


From da963218fda7515c25741289e56a65672e349f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 29/40] fix: takizuka_abe at zero rate made NaNs of comoving
 particles

---
 src/collision/pipeline/takizuka_abe_pipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/pipeline/takizuka_abe_pipeline.cc b/src/collision/pipeline/takizuka_abe_pipeline.cc
index 2bfd89a..9f7c5e7 100644
--- a/src/collision/pipeline/takizuka_abe_pipeline.cc
+++ b/src/collision/pipeline/takizuka_abe_pipeline.cc
@@ -45,7 +45,7 @@
     tz = stack[2];                                                      \
                                                                         \
     t0 = 1;                                                             \
-    t2 = 1/ur;                                                          \
+    t2 = 1/(ur+FLT_MIN);                                                  \
     t1 = std*sqrtf(t2)*t2;                                              \
     CMOV(t1,t0);                                                        \
     dd = t1*frandn(rng);                                                \
-- 
2.43.0


From 5e7e5a19848f08cb33488ea2b27d3d6a992d876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 30/40] fix: langevin accepted a random number pool smaller
 than the pipelines it serves

---
 src/collision/langevin.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collision/langevin.cc b/src/collision/langevin.cc
index f7bf2a1..a31f982 100644
--- a/src/collision/langevin.cc
+++ b/src/collision/langevin.cc
@@ -66,6 +66,7 @@ langevin( float kT,
 
   if ( !sp    ||
        !rp    ||
+       rp->n_rng < N_PIPELINE ||
        kT < 0 ||
        nu < 0 )
   {
-- 
2.43.0


From 22f628d5450a67552324ccba69a577dbb8c85aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 31/40] fix: seeding a random number pool with a large seed
 overflowed a signed integer

---
 src/util/rng/rng_pool.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/rng/rng_pool.cc b/src/util/rng/rng_pool.cc
index 8c2829e..6e2cd27 100644
--- a/src/util/rng/rng_pool.cc
+++ b/src/util/rng/rng_pool.cc
@@ -55,8 +55,10 @@ seed_rng_pool( rng_pool_t * RESTRICT rp,
                int sync ) {
   int n;
   if( !rp ) ERROR(( "Bad args" ));
-  seed = (sync ? world_size : world_rank) + (world_size+1)*rp->n_rng*seed;
-  for( n=0; n<rp->n_rng; n++ ) seed_rng( rp->rng[n], seed + (world_size+1)*n );
+  const unsigned stride = (unsigned)world_size + 1;
+  const unsigned base   = (unsigned)(sync ? world_size : world_rank) +
+                          stride*(unsigned)rp->n_rng*(unsigned)seed;
+  for( n=0; n<rp->n_rng; n++ ) seed_rng( rp->rng[n], (int)(base + stride*(unsigned)n) );
   return rp;
 }
 
-- 
2.43.0


From d2c0968a1995cf411bd70597aa6a3cd19b461221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 32/40] fix: set_point_region_bc was missing the semicolons of
 its interior faces and did not compile

---
 deck/wrapper.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index f5b5c81..2f629c4 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -176,12 +176,12 @@ vpic_simulation::user_particle_collisions( void )
             if( _r001 || _r101 || _r011 || _r111 ) _n[5] = _epbc;        \
           }                                                              \
           if( _ipbc ) {                                                  \
-            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc         \
-            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc         \
-            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc         \
-            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc         \
-            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc         \
-            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc         \
+            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc;        \
+            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc;        \
+            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc;        \
+            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc;        \
+            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc;        \
+            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc;        \
           }                                                              \
           _n += 6;                                                       \
     }}}                                                                  \
-- 
2.43.0


From 1e74fb81f658837b7bed45cfe1a46b4708f3af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 33/40] fix: set_region_field evaluated edge and face fields
 one cell away from where they are stored

---
 deck/wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index 2f629c4..bcf602d 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -393,9 +393,9 @@ vpic_simulation::user_particle_collisions( void )
     const double _dx = grid->dx, _dy = grid->dy, _dz = grid->dz;      \
     const double _c  = grid->cvac;                                    \
     const int    _nx = grid->nx, _ny = grid->ny, _nz = grid->nz;      \
-    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*_k, _zc = _z0 + _dz*(_k-0.5); \
-    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*_j, _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
-    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*_i, _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
+    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*(_k-1), _zc = _z0 + _dz*(_k-0.5); \
+    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*(_j-1), _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
+    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*(_i-1), _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
           int _rccc, _rlcc, _rclc, _rllc, _rccl, _rlcl, _rcll;        \
           x = _xc; y = _yc; z = _zc; _rccc = (rgn);                   \
           x = _xl;                   _rlcc = (rgn);                   \
-- 
2.43.0


From 627b1c7d2265e96e2effa3ce1f32f1e1ac052188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 34/40] fix: the warning about magnetic conductivity did not
 pass the name it prints

---
 src/field_advance/standard/sfa.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field_advance/standard/sfa.cc b/src/field_advance/standard/sfa.cc
index 7d22365..74a85e1 100644
--- a/src/field_advance/standard/sfa.cc
+++ b/src/field_advance/standard/sfa.cc
@@ -94,7 +94,7 @@ create_sfa_params( grid_t * g,
     if( cg2>=1 )
       WARNING(( "\"%s\" Courant condition estimate = %e", m->name, sqrt(cg2) ));
     if( m->zetax!=0 || m->zetay!=0 || m->zetaz!=0 )
-      WARNING(( "\"%s\" magnetic conductivity is not supported" ));
+      WARNING(( "\"%s\" magnetic conductivity is not supported", m->name ));
     n_mc++;
   }
 
-- 
2.43.0


From 72323e753089b9ebab19c52595672e5f3edd4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 35/40] fix: poynting_flux summed uninitialised memory on ranks
 away from the left side

The memset cleared as many bytes as there are floats, so three quarters of the
contributions of ranks that do not touch the boundary were whatever the memory
held before.
---
 src/vpic/diagnostics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/diagnostics.cc b/src/vpic/diagnostics.cc
index 7d00523..04261c9 100644
--- a/src/vpic/diagnostics.cc
+++ b/src/vpic/diagnostics.cc
@@ -42,7 +42,7 @@ double vpic_simulation::poynting_flux(double e0) {
 		ERROR(("Failed pvec allocation in poynting flux diagnostic"));
 	} // if
 
-	memset(pvec, 0, stride);
+	memset(pvec, 0, stride*sizeof(float));
 
 	int ix, k1, k2;
 	RANK_TO_INDEX( int(rank()), ix);
-- 
2.43.0


From 8f502473cfcf0dd5b416012164496ab90ad3c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 36/40] fix: cleaning div E or div B on a single cell turned
 the fields into NaN

With one cell along each axis no divergence can be cleaned, but the damping
factor was computed as a division by zero, and infinity times zero was then
added to the fields. Initialization cleans both, so no single-cell simulation
kept the fields it was given.
---
 src/field_advance/standard/pipeline/clean_div_b_pipeline.cc   | 4 ++--
 .../standard/pipeline/clean_div_b_pipeline_v16.cc             | 2 +-
 .../standard/pipeline/clean_div_b_pipeline_v4.cc              | 2 +-
 .../standard/pipeline/clean_div_b_pipeline_v8.cc              | 2 +-
 src/field_advance/standard/pipeline/clean_div_e_pipeline.h    | 3 ++-
 .../standard/pipeline/vacuum_clean_div_e_pipeline.h           | 3 ++-
 6 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc
index 37bf069..4fb93a7 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc
@@ -38,7 +38,7 @@ clean_div_b_pipeline_scalar( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ? 0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
@@ -110,7 +110,7 @@ clean_div_b_pipeline( field_array_t * RESTRICT fa )
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ? 0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
index ff83623..8d614f4 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
@@ -31,7 +31,7 @@ clean_div_b_pipeline_v16( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ? 0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
index aeefbcb..84a7537 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
@@ -31,7 +31,7 @@ clean_div_b_pipeline_v4( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ? 0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
index 214e447..dc2e326 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
@@ -31,7 +31,7 @@ clean_div_b_pipeline_v8( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = ( nx > 1 || ny > 1 || nz > 1 ) ? 0.3888889/( px*px + py*py + pz*pz ) : 0;
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_e_pipeline.h b/src/field_advance/standard/pipeline/clean_div_e_pipeline.h
index bfd7b15..99b6977 100644
--- a/src/field_advance/standard/pipeline/clean_div_e_pipeline.h
+++ b/src/field_advance/standard/pipeline/clean_div_e_pipeline.h
@@ -23,7 +23,8 @@ typedef struct pipeline_args
   const float _rdx = (nx>1) ? g->rdx : 0;                                \
   const float _rdy = (ny>1) ? g->rdy : 0;                                \
   const float _rdz = (nz>1) ? g->rdz : 0;                                \
-  const float alphadt = 0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ); \
+  const float alphadt = ( nx>1 || ny>1 || nz>1 ) ?                       \
+    0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ) : 0;                 \
   const float px   = alphadt*_rdx;                                       \
   const float py   = alphadt*_rdy;                                       \
   const float pz   = alphadt*_rdz;                                       \
diff --git a/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h b/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h
index 4d85ba2..ebe7a13 100644
--- a/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h
+++ b/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h
@@ -23,7 +23,8 @@ typedef struct pipeline_args
   const float _rdx = (nx>1) ? g->rdx : 0;                                \
   const float _rdy = (ny>1) ? g->rdy : 0;                                \
   const float _rdz = (nz>1) ? g->rdz : 0;                                \
-  const float alphadt = 0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ); \
+  const float alphadt = ( nx>1 || ny>1 || nz>1 ) ?                       \
+    0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ) : 0;                 \
   const float px   = (alphadt*_rdx)*m->drivex;                           \
   const float py   = (alphadt*_rdy)*m->drivey;                           \
   const float pz   = (alphadt*_rdz)*m->drivez;                           \
-- 
2.43.0


From 282971635a5390e5831dbed828b1c0dd0be3fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:50 +0000
Subject: [PATCH 37/40] fix: long file names overflowed fixed buffers in dumps,
 checkpt and restore

The names of dump and checkpoint files were printed into 256 character
buffers without a bound. Names that do not fit are now reported.
---
 deck/main.cc     |  6 +++--
 src/vpic/dump.cc | 69 +++++++++++++++++++++++++++---------------------
 2 files changed, 43 insertions(+), 32 deletions(-)

diff --git a/deck/main.cc b/deck/main.cc
index f9f7fb1..8128b36 100644
--- a/deck/main.cc
+++ b/deck/main.cc
@@ -48,7 +48,8 @@ void checkpt(const char* fbase, int tag)
 {
     char fname[256];
     if( !fbase ) ERROR(( "NULL filename base" ));
-    sprintf( fname, "%s.%i.%i", fbase, tag, world_rank );
+    if( snprintf( fname, sizeof(fname), "%s.%i.%i", fbase, tag, world_rank )>=(int)sizeof(fname) )
+        ERROR(( "Filename too long" ));
     if( world_rank==0 ) log_printf( "*** Checkpointing to \"%s\"\n", fbase );
     checkpt_objects( fname );
 }
@@ -82,7 +83,8 @@ int main(int argc, char** argv)
         // so that all processes come of a restore together.
         if( world_rank==0 ) log_printf( "*** Restoring from \"%s\"\n", fbase );
         char fname[256];
-        sprintf( fname, "%s.%i", fbase, world_rank );
+        if( snprintf( fname, sizeof(fname), "%s.%i", fbase, world_rank )>=(int)sizeof(fname) )
+            ERROR(( "Filename too long" ));
         restore_objects( fname );
         mp_barrier();
         reanimate_objects();
diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index df94139..737af0d 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -145,7 +145,8 @@ vpic_simulation::dump_grid( const char *fbase ) {
   if( !fbase ) ERROR(( "Invalid filename" ));
   if( rank()==0 ) MESSAGE(( "Dumping grid to \"%s\"", fbase ));
 
-  sprintf( fname, "%s.%i", fbase, rank() );
+  if( snprintf( fname, sizeof(fname), "%s.%i", fbase, rank() )>=(int)sizeof(fname) )
+    ERROR(( "Filename too long" ));
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
 
@@ -192,8 +193,9 @@ vpic_simulation::dump_fields( const char *fbase,
 
   if( rank()==0 ) MESSAGE(( "Dumping fields to \"%s\"", fbase ));
 
-  if( ftag ) sprintf( fname, "%s.%li.%i", fbase, (long)step(), rank() );
-  else       sprintf( fname, "%s.%i", fbase, rank() );
+  if( ( ftag ? snprintf( fname, sizeof(fname), "%s.%li.%i", fbase, (long)step(), rank() )
+             : snprintf( fname, sizeof(fname), "%s.%i", fbase, rank() ) )>=(int)sizeof(fname) )
+    ERROR(( "Filename too long" ));
 
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
@@ -248,8 +250,9 @@ vpic_simulation::dump_hydro( const char *sp_name,
   if( rank()==0 )
     MESSAGE(("Dumping \"%s\" hydro fields to \"%s\"",sp->name,fbase));
 
-  if( ftag ) sprintf( fname, "%s.%li.%i", fbase, (long)step(), rank() );
-  else       sprintf( fname, "%s.%i", fbase, rank() );
+  if( ( ftag ? snprintf( fname, sizeof(fname), "%s.%li.%i", fbase, (long)step(), rank() )
+             : snprintf( fname, sizeof(fname), "%s.%i", fbase, rank() ) )>=(int)sizeof(fname) )
+    ERROR(( "Filename too long" ));
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail) ERROR(( "Could not open \"%s\".", fname ));
 
@@ -293,8 +296,9 @@ vpic_simulation::dump_particles( const char *sp_name,
   if( rank()==0 )
     MESSAGE(("Dumping \"%s\" particles to \"%s\"",sp->name,fbase));
 
-  if( ftag ) sprintf( fname, "%s.%li.%i", fbase, (long)step(), rank() );
-  else       sprintf( fname, "%s.%i", fbase, rank() );
+  if( ( ftag ? snprintf( fname, sizeof(fname), "%s.%li.%i", fbase, (long)step(), rank() )
+             : snprintf( fname, sizeof(fname), "%s.%i", fbase, rank() ) )>=(int)sizeof(fname) )
+    ERROR(( "Filename too long" ));
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail ) ERROR(( "Could not open \"%s\"", fname ));
 
@@ -410,7 +414,8 @@ vpic_simulation::global_header( const char * base,
 
   // Open the file for output
   char filename[256];
-  sprintf(filename, "%s.vpc", base);
+  if( snprintf( filename, sizeof(filename), "%s.vpc", base )>=(int)sizeof(filename) )
+    ERROR(( "Filename too long" ));
 
   FileIO fileIO;
   FileIOStatus status;
@@ -554,23 +559,25 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
   // Create directory for this time step
   char timeDir[256];
 
-  sprintf( timeDir,
-           "%s/T.%ld",
-           dumpParams.baseDir,
-           dumpStep );
+  if( snprintf( timeDir, sizeof(timeDir),
+                "%s/T.%ld",
+                dumpParams.baseDir,
+                dumpStep )>=(int)sizeof(timeDir) )
+    ERROR(( "Filename too long" ));
 
   dump_mkdir( timeDir );
 
   // Open the file for output
   char filename[300];
 
-  sprintf( filename,
-           "%s/T.%ld/%s.%ld.%d",
-           dumpParams.baseDir,
-           dumpStep,
-           dumpParams.baseFileName,
-           dumpStep,
-           rank() );
+  if( snprintf( filename, sizeof(filename),
+                "%s/T.%ld/%s.%ld.%d",
+                dumpParams.baseDir,
+                dumpStep,
+                dumpParams.baseFileName,
+                dumpStep,
+                rank() )>=(int)sizeof(filename) )
+    ERROR(( "Filename too long" ));
 
   FileIO fileIO;
   FileIOStatus status;
@@ -728,23 +735,25 @@ vpic_simulation::hydro_dump( const char * speciesname,
   // Create directory for this time step
   char timeDir[256];
 
-  sprintf( timeDir,
-           "%s/T.%ld",
-           dumpParams.baseDir,
-           dumpStep );
+  if( snprintf( timeDir, sizeof(timeDir),
+                "%s/T.%ld",
+                dumpParams.baseDir,
+                dumpStep )>=(int)sizeof(timeDir) )
+    ERROR(( "Filename too long" ));
 
   dump_mkdir( timeDir );
 
   // Open the file for output
   char filename[300];
 
-  sprintf( filename,
-           "%s/T.%ld/%s.%ld.%d",
-           dumpParams.baseDir,
-           dumpStep,
-           dumpParams.baseFileName,
-           dumpStep,
-           rank() );
+  if( snprintf( filename, sizeof(filename),
+                "%s/T.%ld/%s.%ld.%d",
+                dumpParams.baseDir,
+                dumpStep,
+                dumpParams.baseFileName,
+                dumpStep,
+                rank() )>=(int)sizeof(filename) )
+    ERROR(( "Filename too long" ));
 
   FileIO fileIO;
   FileIOStatus status;
-- 
2.43.0


From 9ac87f3ab00f76d7cce0a018ae60cc54a558ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:12 +0000
Subject: [PATCH 38/40] fix: modify left the file of parameters open

---
 src/vpic/misc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vpic/misc.cc b/src/vpic/misc.cc
index 4ece4cb..292f2f2 100644
--- a/src/vpic/misc.cc
+++ b/src/vpic/misc.cc
@@ -169,6 +169,8 @@ vpic_simulation::modify( const char *fname ) {
 #endif
 
   }
+
+  fclose( handle );
 }
 
 #undef SETIVAR
-- 
2.43.0


From 1453c2a3bda1a151278091e7e7b58a8e72a59e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 39/40] fix: refuse to append a boundary condition or collision
 operator twice

Appending the last element of a list to that list again was accepted, as its
next pointer is NULL, and made it its own successor: every walk over the list
then never ended.
---
 src/boundary/boundary.cc   | 6 +++++-
 src/collision/collision.cc | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/boundary/boundary.cc b/src/boundary/boundary.cc
index 5e3f61d..7cadae3 100644
--- a/src/boundary/boundary.cc
+++ b/src/boundary/boundary.cc
@@ -66,8 +66,12 @@ delete_particle_bc_list( particle_bc_t * pbc_list ) {
 particle_bc_t *
 append_particle_bc( particle_bc_t * pbc,
                     particle_bc_t ** pbc_list ) {
+  particle_bc_t * p;
   if( !pbc || !pbc_list ) ERROR(( "Bad args" ));
-  if( pbc->next ) ERROR(( "Particle boundary condition already in a list" ));
+  // Note: The last element of a list has a NULL next
+  LIST_FIND_FIRST( p, *pbc_list, p==pbc );
+  if( p || pbc->next )
+    ERROR(( "Particle boundary condition already in a list" ));
   // Assumes reflective/absorbing are -1, -2
   pbc->id   = -3-num_particle_bc( *pbc_list );
   pbc->next = *pbc_list;
diff --git a/src/collision/collision.cc b/src/collision/collision.cc
index 2c1c89b..15c2333 100644
--- a/src/collision/collision.cc
+++ b/src/collision/collision.cc
@@ -74,7 +74,11 @@ delete_collision_op_list( collision_op_t * cop_list ) {
 collision_op_t *
 append_collision_op( collision_op_t * cop,
                      collision_op_t ** cop_list ) {
-  if( !cop || !cop_list || cop->next ) ERROR(( "Bad args" ));
+  collision_op_t * c;
+  if( !cop || !cop_list ) ERROR(( "Bad args" ));
+  // Note: The last element of a list has a NULL next
+  LIST_FIND_FIRST( c, *cop_list, c==cop );
+  if( c || cop->next ) ERROR(( "Collision operator already in a list" ));
   cop->next = *cop_list;
   *cop_list = cop;
   return cop;
-- 
2.43.0


From 490ceebf50dadc4bf2ef7956ba4f9d98e8921b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:26 +0000
Subject: [PATCH 40/40] fix: keep particle boundary conditions within their
 tables of species

absorb_tally and maxwellian_reflux hold one entry per species defined before
them.  Temperatures set for, and particles of, species defined later wrote and
read past the end of these tables.
---
 src/boundary/absorb_tally.cc      | 3 +++
 src/boundary/maxwellian_reflux.cc | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/boundary/absorb_tally.cc b/src/boundary/absorb_tally.cc
index 3a1468a..9c63741 100644
--- a/src/boundary/absorb_tally.cc
+++ b/src/boundary/absorb_tally.cc
@@ -23,6 +23,9 @@ interact_absorb_tally( absorb_tally_t      * RESTRICT at,
                        particle_injector_t * RESTRICT pi,
                        int                            max_pi,
                        int                            face ) {
+  if( sp->id>=num_species( at->sp_list ) )
+    ERROR(( "Species \"%s\" was defined after this boundary condition",
+            sp->name ));
   at->tally[ sp->id ]++;
   accumulate_rhob( at->fa->f, p, at->fa->g, sp->q );
   return 0;
diff --git a/src/boundary/maxwellian_reflux.cc b/src/boundary/maxwellian_reflux.cc
index 698795f..be41d55 100644
--- a/src/boundary/maxwellian_reflux.cc
+++ b/src/boundary/maxwellian_reflux.cc
@@ -66,6 +66,10 @@ interact_maxwellian_reflux( maxwellian_reflux_t * RESTRICT mr,
   const grid_t * RESTRICT g   = sp->g;
   /**/  rng_t  * RESTRICT rng = mr->rng;
 
+  if( sp->id>=num_species( mr->sp_list ) )
+    ERROR(( "Species \"%s\" was defined after this boundary condition",
+            sp->name ));
+
   const int32_t sp_id   = sp->id;
   const float   ut_para = mr->ut_para[sp_id]; 
   const float   ut_perp = mr->ut_perp[sp_id];
@@ -239,6 +243,9 @@ set_reflux_temp( /**/  particle_bc_t * RESTRICT pbc,
                  float ut_perp ) {
   if( !pbc || !sp || ut_para<0 || ut_perp<0 ) ERROR(( "Bad args" ));
   maxwellian_reflux_t * RESTRICT mr = (maxwellian_reflux_t *)pbc->params;
+  if( sp->id>=num_species( mr->sp_list ) )
+    ERROR(( "Species \"%s\" was defined after this boundary condition",
+            sp->name ));
   mr->ut_para[sp->id] = ut_para;
   mr->ut_perp[sp->id] = ut_perp;
 }
-- 
2.43.0

