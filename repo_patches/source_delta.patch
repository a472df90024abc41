From 6872c6573f869735aee6e97b8eaf370174103145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 001/187] fix: Chinese calendar data left one day out of eight
 years

In the years whose thirteenth month is intercalary and has 30 days, that
month was recorded as having 29.  The year then ended a day before the next
one began, and day_to_dmy( ) looped forever on the missing day.
---
 chinese.dat | 12 ++++++------
 chinese.h   | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/chinese.dat b/chinese.dat
index e9ee402..69681ad 100644
--- a/chinese.dat
+++ b/chinese.dat
@@ -3,17 +3,17 @@
 �V�k��ڊ��J��Ƣ�N�I��ƛ+͈��mE�u�r��d�����IK��v�����D��%��E�����M��͢I�J��ʛVՈ�©�E���ҍ�����ΰJM��j����jC��&�iG�SG�RG���KU�U��
 �lՈ�ũ���Rw����������V�����ڊ����K��M��M�����VE�kE��ʛ�Ո�ƩɎ��.��Ƣ+M��İm��j��r��d�I�IK��v��J�������E��˛����ͩJ���z����V5��°م��m�ҍ���J�KE��ʒ���j��F�iG�RǛ�ƩSŔ����ʢl5��Ű���Rw��K�%K�UU�VE����ڊ����K����͛*ۈ�̩Z	�kE��ʢԵ�膲ю��n����+E�[��m��j��rK�h�QW�J��ƛ-5����ɔrk��ˢ������JK�������VE��I�م�ҍ��F���JM�SE��
 �ZՈj��ʔ�v�R���ưU���ʊ�ʩlE�iK��K�b�E�)�Uu�VE��
-��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
+��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
 �Z��lŰꊝԶ�b���N�R�U���ʒ���t�j���K��ǛE��)�UƔ����¢�%���ы��{��M�*�U�ZI�ۂ��J��Ţ�M������J��+�kɔ�r�j��趒���QG�������ME��J��I�r���K��ˢR;�R��ʛU��Vũ�ʔ�u�ԅ��͒�ΰRM�������ZE��J��J��Ɣ����Su�U��
-�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����I˒JͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
+�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����IےJͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
 �M�UE��ʌ�J��ś�+������%���ʢW�ZŰڊ��Պ䆫�N��-�����L�Z�mE�ꪌjK�dǛI�I��Ɣ�ԁ�¢uE������������IK��z��J��D��%~�E��m��M��͛J�Jͩ�ʔVՁjâ����R���Ί���K��������j�i'~�K�R7�R��
-�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
+�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
 �ZՁlŢiK���R��%׊�ʩU���������E��+~�K�����M�)�UY�Z	��
 ��Ձ�Ţэ��}|���*�+ũ[ɔڪ�ꊤ���N~QG��v��F�-E�k���E�r˔dׁ�ˢI���v|�ʛU5�Vũ������ҍ���J�JM��ʌ���Z�Պ��F��Ɣ��J�U��ʛj5�lũi��Rw�b��EG�SV~UE����������K��K��˔E��*ˢUʍ��z��5��ũэ��}��N�*M�VJ~[���r�ꊫ���N�Q���+�-��I��I�r˛h׊���Q��������UE��j|�������M���R]�R��ʔV5�Z��ʍ�u|�ƛ�.��ΩRM�����ʢjE��J~j��c��bG�I�S��UE��
 �lŁ�E��ˍ�w|���I;�*ͩU������¢Յ��K~�M�����N�J�VJ�k�����&����΍�n|�ƛK5�-��ʔj��t��i��QW~RK������UE�����J�������R����z�ʛV5�Zũ�ʔԵ�Ԇ��N��M~S��������jE�ꊅjK�dǔI�I��ƍ��z��m�������������IK��Z~V�����ڂ��E�ҋ��M��͔J��J�Vʍֲz��&���Ҏ��n��ƢK����|���kËt��iG�RW�RK��
 �K5�U��
 �j�z�ś�+�������ڃ���V����|ڊ�Յ�Ԇ��N��M��E��J�Z%�kE��ʍԶzdǛI/�Iǩ�Ɣ���¢m��j�|�����I�xIK����VJ����e~�E��ˍ�{|�͛J=�Jͩ������¢ن��M~Ҏ�������KE��ʃ���j���iG�RǍ��z�ʛMu�U��ʔlՃ�Ţ���R[~�M��J�U5wVE����ڊ����-����͍&�z�
-�Ze�mE��ʔԶ�d��I���N~����ċ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
+�Ze�mE��ʔԶ�d��I���N~����ԋ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
 �Z�zj��&���R�����ʢM����|�ʛtE�i+w�K�����M�%�U5�VE��
 ���z�ś�M������&̓��Z��ڊ|ꊝ�F��.wIG��������D�ki~uE�j�d�z�ǛI��I��ʔ-��Ģ�ō��|ҋ���I;wJM�����J�ZE��f~�F��͍��z��Jm�K��
 �Z�lŢ醏R�|R���F�K5wU���ꃵ��t��k~�K��ˍ%�z%�U5�V��ʔ���Ţɍ��]~���*͋�̩ZE���ꊤ���.�IG���*�z+�kI�uE�j˔d׃�ǢI����|���-���iu������ҍ���I;�J��
@@ -22,7 +22,7 @@
 �Եz���N�I��Ɣ+M�-�kɍj�|j˛dG�I7wIG�������-E���~�������z�˛KK�J��ʔV�Z��ʍҍ|ҍ��N�J=wJM��ʅ�ʢZE��j~iK�R��y%�K5�UE��
 �j��Ţ�ˍR�|���EK�S�uU����֊��E��k~�M��͍Ey*�Vʇ[I��
 ����Ƣю���|�ƛ+��Z*wkɔj�r��h�Qw~QG���KyUE�����I��˔���ˢR����|�ʛV���juي���ԅ��N�J]�RM��
-�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
+�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
 �MUwVE�����J����K��������z�ʛZ���ju�ʔԶ�d��IO���~����L�Zym��j���K��ǔIw�I��ʍ��z���ņ��uҋ������JM���~V���D��Ew�F�����s�ΔJ-�KE��
 �Z�zjÛ�ƆҎuR������ʢK����|���jE�iKw�K�Rǆ%�q�
 �Uu�V��
@@ -54,7 +54,7 @@ t
 ��6rd�I���n��+�y-��Ɇjt�˔�G�IWpI���Z}���5E���uՅ�����s��J���l�ʍV�yZ��ʆ��u�Ɣ���JmpK���
 |�ʛjE��wi��R�%7r%�K~�
 k�
-�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
+�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
 ���{dǛIφ��u�Ɣ+��[�l�ɍjK|d�j�G�I�wIK��
 �+�pUE��
 ~��l���[{�͛J���:t�ʔV����n�ʍ�E|�.i�N�J�wK���J�Z5rjE��
diff --git a/chinese.h b/chinese.h
index 8cf6a90..abda8e1 100644
--- a/chinese.h
+++ b/chinese.h
@@ -125,7 +125,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xca, 0xa2, 0x2d, 0x55, 0x90, 0xd6, 0xc4, 0xb0,
 0xb5, 0xc9, 0x9b, 0x72, 0xab, 0x8a, 0xb4, 0x8b,
 0xab, 0xa8, 0x0b, 0x9a, 0x51, 0x5b, 0x85, 0x52,
-0x4d, 0xa6, 0xa5, 0x8a, 0x94, 0xaa, 0x4a, 0xb4,
+0x4d, 0xa6, 0xa5, 0x9a, 0x94, 0xaa, 0x4a, 0xb4,
 0x56, 0x45, 0x9f, 0xb5, 0x89, 0x8c, 0xd9, 0x45,
 0xad, 0xd4, 0xcd, 0x9b, 0xa8, 0xcd, 0x88, 0xa9,
 0x0e, 0xa8, 0x52, 0x8d, 0x96, 0xa6, 0x6a, 0x83,
@@ -182,7 +182,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xc2, 0xa2, 0x6b, 0xe5, 0x90, 0x75, 0x05, 0xaf,
 0x6a, 0x8b, 0x9d, 0x64, 0x97, 0x8c, 0xa4, 0x47,
 0xad, 0x49, 0x47, 0x98, 0x95, 0x56, 0x85, 0x55,
-0x46, 0xa6, 0xad, 0x82, 0x94, 0xb6, 0x82, 0xb2,
+0x46, 0xa6, 0xad, 0x92, 0x94, 0xb6, 0x82, 0xb2,
 0xb5, 0x45, 0x9f, 0xb2, 0x6b, 0x8e, 0xd2, 0x0b,
 0xaf, 0xa4, 0xcb, 0x9b, 0x49, 0xfb, 0x88, 0x4a,
 0xcd, 0xa9, 0x56, 0x8a, 0x96, 0xb6, 0xb2, 0x81,
@@ -207,7 +207,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x49, 0xef, 0x7f, 0x49, 0x07, 0xa1, 0x95, 0x76,
 0x8e, 0x55, 0x4a, 0xad, 0xb5, 0x02, 0x9a, 0x6d,
 0x25, 0x87, 0xb5, 0x05, 0xa8, 0xb2, 0xcb, 0x94,
-0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xcb,
+0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xdb,
 0x92, 0x4a, 0xcd, 0xb0, 0x56, 0x8a, 0x9d, 0xb6,
 0xd4, 0x8a, 0xda, 0x82, 0xab, 0xd5, 0x85, 0x96,
 0xd2, 0x4b, 0x85, 0xd2, 0x4d, 0xa6, 0xa4, 0xcd,
@@ -250,7 +250,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x7f, 0xc9, 0x4e, 0x9f, 0x92, 0x6e, 0x8e, 0x95,
 0x46, 0xad, 0xab, 0x0c, 0x9a, 0x5a, 0x45, 0x87,
 0x6d, 0x45, 0xa6, 0xea, 0xca, 0x94, 0xe4, 0x96,
-0x83, 0x64, 0xc7, 0xa2, 0x49, 0x07, 0x91, 0x49,
+0x83, 0x64, 0xc7, 0xa2, 0x49, 0x17, 0x91, 0x49,
 0xc7, 0xb0, 0x95, 0x86, 0x9d, 0x2b, 0x15, 0x89,
 0xb5, 0xc4, 0xa9, 0xb5, 0x85, 0x96, 0x6a, 0x4b,
 0x85, 0xb2, 0x8b, 0xa4, 0xa4, 0x07, 0x93, 0x49,
@@ -264,7 +264,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4a, 0x0d, 0x80, 0x4b, 0x45, 0x9f, 0xab, 0xca,
 0x8c, 0xad, 0x8a, 0xab, 0x6c, 0x05, 0x9a, 0x69,
 0x2b, 0x87, 0xa9, 0x0b, 0xa8, 0x52, 0xc7, 0x94,
-0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x05,
+0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x15,
 0x91, 0x56, 0x05, 0xaf, 0xb5, 0xca, 0x9b, 0xb4,
 0xd5, 0x8a, 0xd4, 0x85, 0xab, 0xa9, 0x8b, 0x96,
 0x92, 0x7b, 0x85, 0x92, 0x4d, 0xa6, 0x25, 0x0b,
@@ -404,7 +404,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x0a, 0x9a, 0x5a, 0x65, 0x89, 0x6d, 0x45, 0xa6,
 0xea, 0xca, 0x94, 0xd4, 0xb6, 0x83, 0x64, 0x87,
 0xa4, 0x49, 0x8f, 0x8f, 0x92, 0x4e, 0x7e, 0x95,
-0x86, 0x9d, 0xab, 0xc4, 0x8b, 0xad, 0xc2, 0xa9,
+0x86, 0x9d, 0xab, 0xd4, 0x8b, 0xad, 0xc2, 0xa9,
 0x6d, 0x85, 0x96, 0x6a, 0x8b, 0x85, 0xb2, 0x4b,
 0xa6, 0xa4, 0x07, 0x93, 0x49, 0x37, 0x80, 0x49,
 0x0b, 0xa1, 0x95, 0xca, 0x8d, 0x2d, 0xf5, 0x78,
@@ -536,7 +536,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4e, 0x77, 0x53, 0x86, 0x96, 0xab, 0x4a, 0x82,
 0xad, 0xc2, 0xa2, 0x6d, 0x85, 0x8f, 0x6a, 0x8b,
 0x7e, 0xaa, 0x8b, 0x9d, 0xa4, 0x07, 0x8c, 0x49,
-0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x86, 0x86,
+0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x96, 0x86,
 0x56, 0x4a, 0xa6, 0xb5, 0x02, 0x93, 0xb5, 0x65,
 0x80, 0xd5, 0x45, 0x9f, 0xd2, 0xcb, 0x8d, 0xa4,
 0xbb, 0x7c, 0xa4, 0x8d, 0x9d, 0x49, 0x8d, 0x88,
@@ -822,7 +822,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xab, 0x0a, 0x6b, 0xad, 0x0a, 0x8c, 0x6c, 0x75,
 0x7b, 0xb4, 0x05, 0x9a, 0xa9, 0xcb, 0x86, 0x92,
 0xdb, 0x75, 0x92, 0x8d, 0x96, 0x25, 0x8b, 0x81,
-0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xc2,
+0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xd2,
 0x7d, 0xda, 0xca, 0x9b, 0xd4, 0x45, 0x8a, 0xc9,
 0xad, 0x77, 0xc9, 0x4e, 0x98, 0x92, 0x0e, 0x85,
 0x26, 0x5d, 0x72, 0x2a, 0x0d, 0x93, 0x56, 0xca,
-- 
2.43.0


From 68668cace20b18f6e650e4a85d965747820b53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 002/187] fix: last year of the Jalaali calendar had a 126-day
 twelfth month

The length of year 2327 comes from the start of 2328,  which jalali_jd0( )
rejected as out of range.
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 58c1b7c..4f6bcc1 100644
--- a/date.cpp
+++ b/date.cpp
@@ -470,7 +470,7 @@ static void get_revolutionary_year_data( const long year, long *days,
 static long jalali_jd0( const int jalali_year)
 {
    static const short breaks[12] = { -708, -221,   -3,    6,  394,  720,
-                                      786, 1145, 1635, 1701, 1866, 2328 };
+                                      786, 1145, 1635, 1701, 1866, 2329 };
    static const short deltas[12] = { 1108, 1047,  984, 1249,  952,  891,
                                       930,  866,  869,  844,  848,  852 };
    long rval;
-- 
2.43.0


From 5eef2543d96121463c3760aed4633d1adee61e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:07 +0000
Subject: [PATCH 003/187] fix: Hebrew new year when the molad falls exactly at
 noon

The rule postpones Rosh Hashanah when the molad is at noon or later;
'>' missed the exact-noon case (e.g. year -3840).
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 4f6bcc1..6cc74df 100644
--- a/date.cpp
+++ b/date.cpp
@@ -305,7 +305,7 @@ static void get_hebrew_year_data( const long year, long *days, char *month_data)
             day++;
       else
          {
-         if( halakim > 18L * 1080L)
+         if( halakim >= 18L * 1080L)
             day++;
          if( mod( day, 7L) == 1 || mod( day, 7L) == 4 || mod( day, 7L) == 6L)
             day++;
-- 
2.43.0


From cdcd203b693c7ce2c260d0c3dbd9df2f249e2163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:10 +0000
Subject: [PATCH 004/187] fix: weekday-name times before 25 Dec 1999 were off
 by a day

The day of week of the starting time was found by truncating toward zero
and taking a negative remainder.
---
 get_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 85f8be9..8641ffe 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -810,7 +810,11 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                month = ival;
             else if( (ival = day_of_week_name_to_index( str)) >= 0)
                {
-               ival -= ((long)(initial_t2k + 6.5)) % 7;
+               long curr_dow = ((long)floorl( initial_t2k + .5) + 6) % 7;
+
+               if( curr_dow < 0)       /* dates before 25 Dec 1999 */
+                  curr_dow += 7;
+               ival -= curr_dow;
                if( ival < -3)
                   ival += 7;
                else if( ival > 3)
-- 
2.43.0


From df34bc976b16c85b14f659241268a0fb57f808db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 005/187] fix: full_ctime( ) overran its day buffer beyond
 eleven decimal places

Two digits,  a decimal point and up to fifteen places need nineteen bytes.
---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 90f472b..2a41165 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -384,7 +384,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       {
       char month_str[25];
       char year_str[20];
-      char day_str[15];
+      char day_str[20];
 
       if( format & FULL_CTIME_MONTHS_AS_DIGITS)
          snprintf_err( month_str, sizeof( month_str), (leading_zeroes ? "%02d" : "%2d"), month);
-- 
2.43.0


From 14f216d7a964bc87e52ee14c7f97e50427604086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 006/187] fix: decimal years outside -999 to 9999 lost a digit

The text was cut at a fixed column,  so year -3328 was shown as '-332'.
---
 miscell.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/miscell.cpp b/miscell.cpp
index 2a41165..3347990 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -336,9 +336,7 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
 #else
       snprintf_err( tbuff, sizeof( tbuff), "%21.16Lf", t2k / 365.25 + 2000.);
 #endif
-      tbuff[precision + 5] = '\0';
-      if( !precision)
-         tbuff[4] = '\0';
+      strchr( tbuff, '.')[precision ? precision + 1 : 0] = '\0';
       strlcpy_err( buff, tbuff, max_buff_size);
       if( leading_zeroes)
          while( *buff == ' ')
-- 
2.43.0


From 4bdf80a5e23059b3d7fed4c5e89fbf28d866a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:20 +0000
Subject: [PATCH 007/187] fix: tdb_minus_utc( ) added the TDB-TDT term in days
 to seconds

---
 delta_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index c6ffd21..96f6570 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -461,5 +461,5 @@ double DLL_FUNC tdb_minus_utc( const double jd_utc)
 {
    const double t_cen = (jd_utc - J2000) / 36525.;
 
-   return( tdb_minus_tdt( t_cen) / seconds_per_day + td_minus_utc( jd_utc));
+   return( tdb_minus_tdt( t_cen) + td_minus_utc( jd_utc));
 }
-- 
2.43.0


From 3f159003ba76c6c4393d9f24ff12507b331a9ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:11 +0000
Subject: [PATCH 008/187] fix: Mars clock times could be shown as 24:00:00.000

---
 marstime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marstime.cpp b/marstime.cpp
index 6207c0e..aceb8d6 100644
--- a/marstime.cpp
+++ b/marstime.cpp
@@ -153,8 +153,10 @@ double mtst_at_airy_to_tt( const double mtst)
 static void format_time( const double day, char *buff)
 {
    const double time_of_day = day - floor( day);
-   const int n_millisec = (int)( time_of_day * 24. * 60. * 60. * 1000. + .5);
+   int n_millisec = (int)( time_of_day * 24. * 60. * 60. * 1000. + .5);
 
+   if( n_millisec == 24 * 60 * 60 * 1000)    /* rounded up to midnight */
+      n_millisec = 0;
    snprintf_err( buff, 13, "%02d:%02d:%02d.%03d",
             n_millisec / (60 * 60 * 1000),      /* hour */
             (n_millisec / (60 * 1000)) % 60,    /* minutes */
-- 
2.43.0


From f653f2ed7abb742304adc7f62cd898f4cfe3bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:35 +0000
Subject: [PATCH 009/187] fix: provisional satellite numbers 100-109 lost their
 first digit on unpacking

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index ddf3972..8ecba57 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -226,7 +226,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             obuff[7] = packed[8];       /* planet identifier */
             obuff[8] = ' ';
             i = 9;
-            if( digit > 10)
+            if( digit >= 10)
                obuff[i++] = '0' + digit / 10;
             if( digit)
                obuff[i++] = '0' + digit % 10;
-- 
2.43.0


From 9e691e29a076569ad573f5ed2d09d09c24d8d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:35 +0000
Subject: [PATCH 010/187] fix: packed provisional designations with bad base-62
 digits used an unset buffer, and _ ones a NULL one

---
 unpack.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index 8ecba57..4a1bf39 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -89,7 +89,7 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
 
       if( year < 0 || desig_num < 0)
          rval = -1;
-      else
+      else if( obuff)
          {
          char letter = 'A' + desig_num % 25;
 
@@ -107,8 +107,7 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
 
       if( output_no == -1)
          rval = -2;
-
-      if( obuff)
+      else if( obuff)
          {
          obuff[0] = ((*ibuff >= 'K') ? '2' : '1');          /* millennium */
          obuff[1] = (char)( '0' + ((*ibuff - 'A') % 10));   /* century   */
@@ -131,11 +130,9 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
          }
       }
    else
-      {
-      if( obuff)
-         *obuff = '\0';
       rval = -1;
-      }
+   if( rval && obuff)
+      *obuff = '\0';
    return( rval);
 }
 
-- 
2.43.0


From bdd745a6a5b3b63405049675ddaacc43a3411ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:35 +0000
Subject: [PATCH 011/187] fix: undeciphered names beginning with P, C, D, X or
 A gained a comet prefix

---
 unpack.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index 4a1bf39..4fcc716 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -311,15 +311,16 @@ int unpack_mpc_desig( char *obuff, const char *packed)
       }
 
    if( rval == OBJ_DESIG_OTHER && !memcmp( packed, "    ", 4)
-            && strchr( " PCDXA", packed[4]))
+            && strchr( " PCDXA", packed[4])
+            && !unpack_provisional_packed_desig( NULL, 0, packed + 5))
       {
       if( obuff && packed[4] != ' ')
          {
          *obuff++ = packed[4];
          *obuff++ = '/';
          }
-      if( !unpack_provisional_packed_desig( obuff, obuff_size, packed + 5))
-         rval = ((packed[4] == ' ' || packed[4] == 'A') ?
+      unpack_provisional_packed_desig( obuff, obuff_size, packed + 5);
+      rval = ((packed[4] == ' ' || packed[4] == 'A') ?
                                       OBJ_DESIG_ASTEROID_PROVISIONAL
                                     : OBJ_DESIG_COMET_PROVISIONAL);
       }
-- 
2.43.0


From 54ac755f26f4dc3d524fd09e55cebd0a1d1923fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:35 +0000
Subject: [PATCH 012/187] fix: a number plus an extended provisional
 designation stopped the program

---
 unpack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpack.cpp b/unpack.cpp
index 4fcc716..f5f3b82 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -248,7 +248,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             {
             snprintf_err( obuff, 11, "(%d)", num + 620000);
             if( *provisional_desig)
-               snprintf_append( obuff, 24, " %s", provisional_desig);
+               snprintf_append( obuff, 25, " %s", provisional_desig);
             }
          return( OBJ_DESIG_ASTEROID_NUMBERED);
          }
@@ -276,7 +276,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
                   /* and the provisional desig.  We'd like to decipher this */
                   /* as (for the example) "304330 = 2006 SX217".            */
                if( *provisional_desig)
-                  snprintf_append( obuff, 23, " = %s", provisional_desig);
+                  snprintf_append( obuff, 25, " = %s", provisional_desig);
                }
             }
          }
-- 
2.43.0


From 05beebfc8ce1f00495bb42f9fd142712cf990b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:35 +0000
Subject: [PATCH 013/187] fix: over-long unaligned designations came back
 without a terminator

---
 unpack.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index f5f3b82..9d7b86e 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -374,7 +374,11 @@ int unpack_unaligned_mpc_desig( char *obuff, const char *packed)
       len++;
    if( len > 12)
       {
-      memcpy( obuff, packed, 12);
+      if( obuff)
+         {
+         memcpy( obuff, packed, 12);
+         obuff[12] = '\0';
+         }
       return( OBJ_DESIG_OTHER);
       }
    memset( aligned, ' ', 12);
-- 
2.43.0


From 4203300e5a86580c1df325609169854d266fb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:31 +0000
Subject: [PATCH 014/187] fix: unpacking Jupiter LXXXVIII (and other long
 satellite numerals) stopped the program

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 9d7b86e..5474eaf 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -166,7 +166,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    size_t i;
    int mask = 1, digit_mask = 0, space_mask = 0, digit;
    char provisional_desig[40];
-   const size_t obuff_size = 16;
+   const size_t obuff_size = 25;
 
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
-- 
2.43.0


From b0fb8a3598c9d075792f5c4b5de90b364ce24295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:31 +0000
Subject: [PATCH 015/187] fix: unpacking a literal ($) name from a full record
 stopped the program

---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 5474eaf..c4a8c34 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -171,7 +171,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
       if( obuff)
-         strlcpy_err( obuff, packed + 1, obuff_size);
+         strlcpy( obuff, packed + 1, 12);
       return( OBJ_DESIG_ASTEROID_NUMBERED);     /* fix later... will be a project! */
       }
    for( i = 0; i < 12; i++, mask <<= 1)
-- 
2.43.0


From 4b9d6f8a7c553015668d2aa7e2b39eba4bee6068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:31 +0000
Subject: [PATCH 016/187] fix: packing an empty name read past its end

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index d0ece99..abc2455 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -715,7 +715,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       }
                /* Check for comet-style desigs such as 'P/1995 O1' */
                /* and such.  Leading character can be P, C, X, D, or A. */
-   if( obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
+   if( *obj_name && obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
       {
       comet_desig = *obj_name;
       obj_name += 2;
-- 
2.43.0


From 40180d25183b2be2f805dcf0eb310c7bb5b80139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:31 +0000
Subject: [PATCH 017/187] fix: over-long numbers in names wrapped around to
 valid designations

---
 mpc_fmt.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index abc2455..700a7d8 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -53,7 +53,11 @@ static inline int quick_atoi( const char *iptr)
    int rval = 0;
 
    while( *iptr >= '0' && *iptr <= '9')
-      rval = (rval * 10) + (*iptr++ - '0');
+      {
+      if( rval < 100000000)               /* avoid overflow */
+         rval = (rval * 10) + (*iptr - '0');
+      iptr++;
+      }
    return( rval);
 }
 
@@ -725,7 +729,11 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
    packed_desig[12] = '\0';
    i = 0;
    while( isdigit( obj_name[i]))
-      number = (number * 10) + (unsigned)( obj_name[i++] - '0');
+      {
+      if( number <= max_number)           /* avoid wraparound */
+         number = (number * 10) + (unsigned)( obj_name[i] - '0');
+      i++;
+      }
    len = strlen( obj_name);
    if( in_parentheses)
       len--;
@@ -804,11 +812,14 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
             }
          else if( number >= 2000 && number < 2062)
             {
-            int n = (sub_designator - 620) * 25 + packed_desig[11] - 'A';
+            const int max_n = 62 * 62 * 62 * 62;
+            int n = max_n;
 
+            if( sub_designator - 620 < max_n / 25 + 1)
+               n = (sub_designator - 620) * 25 + packed_desig[11] - 'A';
             if( packed_desig[11] > 'I')
                n--;
-            if( n >= 62 * 62 * 62 * 62)
+            if( n >= max_n || packed_desig[11] == '0')
                mangled_designation = true;
             else
                {
-- 
2.43.0


From f5936bab68140c478854136e015d9758246d91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:31 +0000
Subject: [PATCH 018/187] fix: provisional designations past cycle 619 outside
 2000-2061 were packed without their number

---
 mpc_fmt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 700a7d8..913115e 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -829,6 +829,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
                encode_value_in_mutant_hex( packed_desig + 8, 4, n);
                }
             }
+         else        /* no packed form exists for this */
+            mangled_designation = true;
          while( isdigit( obj_name[i]))
             i++;
          if( comet_desig)
-- 
2.43.0


From 19d31ee81d20f4987cc25ada90b863cf90aa5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:31 +0000
Subject: [PATCH 019/187] fix: names that cannot be packed kept pieces of a
 half-packed designation

---
 mpc_fmt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 913115e..bc133f5 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -906,6 +906,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
          obj_name -= 2;
          len += 2;
          }
+      memset( packed_desig, ' ', 12);
       if( len <= 7)
          memcpy( packed_desig + 5, obj_name, len);
       else
-- 
2.43.0


From a33fdf575cc1ba72cfc8b5dbaa6d0e844f97c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 020/187] fix: text after a numbered comet was dropped when
 packing instead of being rejected

---
 mpc_fmt.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index bc133f5..987d2e6 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -675,6 +675,14 @@ static int pack_provisional_natsat( char *packed, const char *fullname)
    return( -1);
 }
 
+/* Comet fragments have suffixes such as -B or -AZ. */
+
+static bool is_fragment_suffix( const char *suffix)
+{
+   return( *suffix == '-' && isupper( suffix[1])
+            && (!suffix[2] || (isupper( suffix[2]) && !suffix[3])));
+}
+
 /* create_mpc_packed_desig( ) takes a "normal" name for a comet/asteroid,
 such as P/1999 Q1a or 2005 FF351,  and turns it into the 12-byte packed
 format used in MPC reports and element files.  ('packed_desig' will
@@ -743,12 +751,12 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       if( number > 0 && number < 1000000 && i >= 5)
          in_parentheses = true;
    if( number > 0 && number < 10000 && obj_name[i]
-                      && (!obj_name[i + 1] || obj_name[i + 1] == '-')
+                      && (!obj_name[i + 1] || is_fragment_suffix( obj_name + i + 1))
                              && strchr( "PDI", obj_name[i]))
       {        /* such as '297P',  '1I',  etc. */
       snprintf( packed_desig, 5, "%04d", number);
       packed_desig[4] = obj_name[i];
-      if( obj_name[i + 1] == '-' && isupper( obj_name[i + 2]))
+      if( obj_name[i + 1] == '-')
          {           /* fragment designation */
          if( isupper( obj_name[i + 3]))  /* two-letter fragment */
             {
-- 
2.43.0


From 0741339ffcf60e3f517b832fd8c113739b1e3267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 021/187] fix: text after a satellite number was dropped when
 packing instead of being rejected

---
 mpc_fmt.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 987d2e6..80b4d77 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -638,10 +638,15 @@ static int pack_permanent_natsat( char *packed, const char *fullname)
       if( !strncmp( fullname, planet_names_in_english[i], len)
                && fullname[len] == ' ')
          {
-         int sat_number = atoi( fullname + len + 1);
+         const char *tptr = fullname + len + 1;
+         int sat_number = quick_atoi( tptr);
 
+         while( isdigit( *tptr))
+            tptr++;
          if( !sat_number)
             sat_number = extract_roman_numeral( fullname + len + 1);
+         else if( *tptr)               /* text follows the number */
+            sat_number = -1;
          if( sat_number > 0 && sat_number < 1000)
             {
             snprintf_err( packed, PACKED_DESIG_LEN, "%c%03dS       ", *fullname, sat_number);
@@ -661,8 +666,10 @@ static int pack_provisional_natsat( char *packed, const char *fullname)
             && strchr( "MVEMJSUNP", fullname[7]))
       {
       const int year = atoi( fullname + 2);
-      const int num = atoi( fullname + 9);
+      const int num = quick_atoi( fullname + 9);
 
+      if( fullname[9 + strspn( fullname + 9, "0123456789")])
+         return( -1);                  /* text follows the number */
       if( year > 1900 && year < 2100 && num > 0 && num < 620)
          {
          snprintf_err( packed, PACKED_DESIG_LEN, "    S%c%02d%c%c%c0",
-- 
2.43.0


From 973e069b88c4432d052d5ac203554dce958e685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 022/187] fix: long catalogue names overran a buffer

---
 mpc_fmt.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 80b4d77..a7165d2 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -549,9 +549,12 @@ NET Gaia1
 upper/lower case,  and dropping the 'DR' for Gaia,  we've almost
 assuredly got the right catalog.   */
 
-static void reduce_net_name( char *obuff, const char *ibuff)
+static void reduce_net_name( char *obuff, const size_t obuff_size,
+                              const char *ibuff)
 {
-   while( *ibuff)
+   const char *end = obuff + obuff_size - 1;
+
+   while( *ibuff && obuff < end)
       if( *ibuff == '-' || *ibuff == ' ')
          ibuff++;
       else if( ibuff[0] == '.' && ibuff[1] == '0')
@@ -568,10 +571,10 @@ char net_name_to_byte_code( const char *net_name)
    char net1[80], net2[80], rval = 0;
    size_t i;
 
-   reduce_net_name( net1, net_name);
+   reduce_net_name( net1, sizeof( net1), net_name);
    for( i = 0; net_codes[i]; i++)
       {
-      reduce_net_name( net2, net_codes[i] + 1);
+      reduce_net_name( net2, sizeof( net2), net_codes[i] + 1);
       if( !strcmp( net1, net2))
          rval = net_codes[i][0];
       }
-- 
2.43.0


From b7adc9e4409bd2a4c00a515e46520d8af615e5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:05 +0000
Subject: [PATCH 023/187] fix: catalogue names with a lower-case 'dr' were not
 recognised

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index a7165d2..66e845b 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -559,7 +559,7 @@ static void reduce_net_name( char *obuff, const size_t obuff_size,
          ibuff++;
       else if( ibuff[0] == '.' && ibuff[1] == '0')
          ibuff += 2;
-      else if( ibuff[0] == 'D' && ibuff[1] == 'R')
+      else if( toupper( ibuff[0]) == 'D' && toupper( ibuff[1]) == 'R')
          ibuff += 2;
       else
          *obuff++ = toupper( *ibuff++);
-- 
2.43.0


From 231849856fbc5ad148394b0194d3c0a4d8cff6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:51 +0000
Subject: [PATCH 024/187] fix: survey designations above 8999 (such as 9512
 P-L) were not packed

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 66e845b..2a4bb11 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -783,7 +783,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       i++;
                /* If the name starts with four digits followed by an */
                /* uppercase letter,  it's a provisional designation: */
-   if( number > 999 && number < 9000 && isupper( obj_name[i]))
+   if( number > 999 && number < 10000 && isupper( obj_name[i]))
       {
       int sub_designator;
       bool mangled_designation = false;
-- 
2.43.0


From 649b2688782332baf926e110e6a6ed56c6bb0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:51 +0000
Subject: [PATCH 025/187] fix: fragments of comets with asteroid-style
 designations lost their second letter when packed

---
 mpc_fmt.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 2a4bb11..98ee2bb 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -786,7 +786,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
    if( number > 999 && number < 10000 && isupper( obj_name[i]))
       {
       int sub_designator;
-      bool mangled_designation = false;
+      bool mangled_designation = false, second_letter = false;
 
       for( j = 0; j < 4; j++)
          {
@@ -813,6 +813,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       if( isupper( obj_name[i]))
          {
          packed_desig[11] = obj_name[i];
+         second_letter = true;
          i++;
          }
       else if( !comet_desig)  /* asteroid desigs _must_ have a second */
@@ -837,7 +838,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
                n = (sub_designator - 620) * 25 + packed_desig[11] - 'A';
             if( packed_desig[11] > 'I')
                n--;
-            if( n >= max_n || packed_desig[11] == '0')
+            if( n >= max_n || !second_letter)
                mangled_designation = true;
             else
                {
@@ -854,7 +855,8 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
          if( comet_desig)
             {
             packed_desig[4] = comet_desig;
-            if( obj_name[i] == '-' && isupper( obj_name[i + 1]))
+            if( obj_name[i] == '-' && isupper( obj_name[i + 1])
+                        && !second_letter)
                {        /* Comet fragment such as C/2018 F4-A */
                i++;     /* pack as,  e.g.,  CK18F04a */
                packed_desig[11] = obj_name[i++] + 'a' - 'A';
-- 
2.43.0


From c263557d77152427b1132e5eff5901e3b0020701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:12 +0000
Subject: [PATCH 026/187] fix: seven-digit packed RA/decs (format 307) were
 reported as bad

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 98ee2bb..c763975 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -363,7 +363,7 @@ static double get_ra_dec( const char *ibuff, int *format, double *precision)
    rval = quick_atof( buff);
    while( isdigit( buff[i]))
       i++;
-   if( i > 7)        /* "packed" highly precise RA/decs described above */
+   if( i > 6)        /* "packed" highly precise RA/decs described above */
       {
       unsigned tval;
       double factor = 1. / 3600.;
-- 
2.43.0


From 7b9209bf7111bffe725fec5dba4724fadf8fdf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 027/187] fix: dates with an impossible month were returned as
 a bare day number

---
 mpc_fmt.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index c763975..bdb5ec7 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -270,9 +270,15 @@ double extract_date_from_mpc_report( const char *buff, unsigned *format)
       *format = format_found;
       }
 
-   if( month >= 1 && month <= 12 && rval > 0. && rval < 99.)
-      rval += (double)dmy_to_day( 0, month, year,
+   if( format_found < 10 || (format_found >= 20 && format_found < 40)
+                         || format_found >= 50)     /* year/month/day given */
+      {
+      if( month >= 1 && month <= 12 && rval > 0. && rval < 99.)
+         rval += (double)dmy_to_day( 0, month, year,
                                     CALENDAR_JULIAN_GREGORIAN) - .5;
+      else                             /* malformed date */
+         rval = 0.;
+      }
 
              /* Radar obs are always given to the nearest UTC second. So  */
              /* some rounding is usually required with MPC microday data. */
-- 
2.43.0


From 2d89bbd4af45f11ad9292066c08f26754f58313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 028/187] fix: angle format 200 (whole degrees of RA) was
 written as hours

---
 mpc_fmt2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt2.cpp b/mpc_fmt2.cpp
index dd40a5d..fea3762 100644
--- a/mpc_fmt2.cpp
+++ b/mpc_fmt2.cpp
@@ -51,7 +51,7 @@ void output_angle_to_buff( char *obuff, double angle, int precision)
    if( (precision >= 100 && precision <= 116) /* decimal quantity, dd.dd... */
         || ( precision >= 200 && precision <= 215)) /* decimal ddd.dd... */
       {
-      const int two_digits = (precision <= 200);
+      const int two_digits = (precision < 200);
 
       n_digits_to_show = precision % 100;
       power_mul = ten_to_the_nth( n_digits_to_show);
-- 
2.43.0


From d7113c3aadba8c9708b3f177d6376b42e8e6c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 029/187] fix: replacing an empty string never terminated

---
 mpc_fmt2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt2.cpp b/mpc_fmt2.cpp
index fea3762..e23f78c 100644
--- a/mpc_fmt2.cpp
+++ b/mpc_fmt2.cpp
@@ -22,7 +22,7 @@ int text_search_and_replace( char *str, const char *oldstr,
    const size_t oldlen = strlen( oldstr);
    const size_t newlen = strlen( newstr);
 
-   while( ilen >= oldlen)
+   while( oldlen && ilen >= oldlen)
       if( !memcmp( str, oldstr, oldlen))
          {
          memmove( str + newlen, str + oldlen, ilen - oldlen + 1);
-- 
2.43.0


From 9ebf287ae55d05fdb4333fd85b93cb9f98e97f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 030/187] fix: distances from the ellipse at the poles used the
 equatorial axis

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5a3d6c0..5e78764 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -167,7 +167,7 @@ double point_to_ellipse( const double a, const double b,
       {
       lat = PI / 2.;
       if( dist)
-         *dist = fy - a;
+         *dist = fy - b;
       }
    else
       {
-- 
2.43.0


From b262214d3fd5caab875781052a8ed1c2a0e46b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 031/187] fix: axis ratio of an unknown body read outside the
 table

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5e78764..603e3bf 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -94,7 +94,7 @@ const double polar_radii[N_POLAR_RADII] = {
 
 double planet_axis_ratio( const int planet_idx)
 {
-   return( planet_idx >= N_POLAR_RADII ?
+   return( planet_idx < 0 || planet_idx >= N_POLAR_RADII ?
             1 : polar_radii[planet_idx] / equatorial_radii[planet_idx]);
 }
 
-- 
2.43.0


From bf3dfa040a5b44b1966883acc0cf6a9415bf0688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:33 +0000
Subject: [PATCH 032/187] fix: numbers with ten or more digits or decimals were
 read wrongly

---
 mpc_code.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 603e3bf..bd331a7 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -20,6 +20,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #include <stdlib.h>
 #include <assert.h>
 #include <stdio.h>
+#include <stdint.h>
 #include <ctype.h>
 #include <time.h>
 #include "watdefs.h"
@@ -217,7 +218,8 @@ robust solution.        */
 double quick_strtod( const char *ibuff, const char **endptr)
 {
    bool is_negative = false, got_a_digit = false;
-   int integer_part = 0;
+   int64_t integer_part = 0;
+   const int64_t max_part = (int64_t)100000000 * (int64_t)100000000;
    double rval;
 
    if( endptr)
@@ -234,12 +236,16 @@ double quick_strtod( const char *ibuff, const char **endptr)
    if( *ibuff >= '0' && *ibuff <= '9')
       got_a_digit = true;
    while( *ibuff >= '0' && *ibuff <= '9')
-      integer_part = integer_part * 10 + (*ibuff++ - '0');
+      {
+      if( integer_part < max_part)
+         integer_part = integer_part * 10 + (*ibuff - '0');
+      ibuff++;
+      }
    if( *ibuff != '.')
       rval = (double)integer_part;
    else
       {
-      int frac_part = 0, divisor = 1;
+      int64_t frac_part = 0, divisor = 1;
 
       ibuff++;
       if( *ibuff < '0' || *ibuff > '9')
@@ -247,8 +253,12 @@ double quick_strtod( const char *ibuff, const char **endptr)
             return( 0.);
       while( *ibuff >= '0' && *ibuff <= '9')
          {
-         frac_part = frac_part * 10 + (*ibuff++ - '0');
-         divisor *= 10;
+         if( divisor < max_part)       /* further digits don't matter */
+            {
+            frac_part = frac_part * 10 + (*ibuff - '0');
+            divisor *= 10;
+            }
+         ibuff++;
          }
       rval = (double)integer_part + (double)frac_part / (double)divisor;
       }
-- 
2.43.0


From 4549d7d9cf0de160020ffe43351ea5c3e75efb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:34 +0000
Subject: [PATCH 033/187] fix: rover sites on the equator or the prime meridian
 got no parallax constants

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index bd331a7..b30806e 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -352,7 +352,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                   cinfo->lat = cinfo->lon = cinfo->alt = 0.;
                }
             cinfo->planet = rval;
-            if( cinfo->lat && cinfo->lon)   /* i.e.,  topocentric */
+            if( cinfo->lat || cinfo->lon)   /* i.e.,  topocentric */
                _set_parallax_constants( cinfo);
             }
          }
-- 
2.43.0


From ac7537fe2b8b43d882ed28ec95c93ed38681913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:34 +0000
Subject: [PATCH 034/187] fix: name of a short rover line pointed past its end

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index b30806e..795e3ca 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -343,7 +343,7 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
                }
             cinfo->lon *= PI / 180.;
             cinfo->lat *= PI / 180.;
-            cinfo->name = buff + 47;
+            cinfo->name = buff + (strlen( buff) > 47 ? 47 : strlen( buff));
             cinfo->format = MPC_CODE_LAT_LON_ALT;
             if( tptr)                     /* non-earth location */
                {
-- 
2.43.0


From df62fdf8e7fd897745aabdac5548608491cf6253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 035/187] fix: reading a site code from a one- or two-character
 line read past its end

---
 mpc_code.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 795e3ca..5dda0cf 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -385,8 +385,9 @@ int get_mpc_code_info( mpc_code_t *cinfo, const char *buff)
       else
          rval = -1;
       }
-   memcpy( cinfo->code, buff, 4);
-   if( buff[3] == ' ')        /* standard 3-character code */
+   for( i = 0; i < 4 && buff[i]; i++)
+      cinfo->code[i] = buff[i];
+   if( i == 4 && buff[3] == ' ')        /* standard 3-character code */
       cinfo->code[3] = '\0';
    else                       /* 'extended' 4-character code */
       cinfo->code[4] = '\0';
-- 
2.43.0


From 063a29290b188d32ba98950a0e0ec279cfa943eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 036/187] fix: a latitude or longitude without a compass letter
 was read past its end

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 5dda0cf..05570e0 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -574,7 +574,7 @@ static int extract_lat_lon( const char *buff, size_t *bytes_read, double *value)
 /* printf( "From '%s',  got %d, value %f\n", buff, (int)( tptr - buff), *value); */
    if( n_fields && rval == GOT_NOTHING)
       {
-      if( !compass_byte && strchr( compass, *tptr))
+      if( !compass_byte && *tptr && strchr( compass, *tptr))
          {                 /* compass sign after the angle */
          compass_byte = *tptr++;
 /*       printf( "Got byte '%c'; value %f\n", compass_byte, *value); */
-- 
2.43.0


From 2e8f1135501a0e81657d12f599fb0df0d1a26304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 037/187] fix: a declination beyond 90 degrees was not reported
 as an error

---
 mpc_code.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 05570e0..d52e382 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -701,10 +701,10 @@ double get_dec_from_string( const char *buff, int *bytes_read)
 
       if( !n_fields || rval > 90.)
          *bytes_read = 0;
+      else
+         (*bytes_read)++;
       if( *buff == '-')
          rval = -rval;
-      if( n_fields)
-         (*bytes_read)++;
       return( rval * PI / 180.);
       }
 }
-- 
2.43.0


From 928d4a36988a495f3d02c1d12d2e49bd8d166fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:47 +0000
Subject: [PATCH 038/187] fix: an RA given as hours and decimal minutes was
 taken as degrees

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index d52e382..1cffdf6 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -680,7 +680,7 @@ double get_ra_from_string( const char *buff, int *bytes_read)
    int n_fields;
    double rval = _get_angle( buff, bytes_read, &n_fields);
 
-   if( n_fields > 2)     /* assume HH MM.mm or HH MM SS.sss */
+   if( n_fields > 1)     /* assume HH MM.mm or HH MM SS.sss */
       rval *= 15.;
    if( !n_fields || rval > 360.)
       *bytes_read = 0;
-- 
2.43.0


From 0821f580937bbb832ee684becaf82bfcc35b20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:48 +0000
Subject: [PATCH 039/187] fix: observations dated 15-31 October 1582 were read
 ten days late

---
 mpc_fmt.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index bdb5ec7..37644eb 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -274,8 +274,12 @@ double extract_date_from_mpc_report( const char *buff, unsigned *format)
                          || format_found >= 50)     /* year/month/day given */
       {
       if( month >= 1 && month <= 12 && rval > 0. && rval < 99.)
-         rval += (double)dmy_to_day( 0, month, year,
-                                    CALENDAR_JULIAN_GREGORIAN) - .5;
+         {
+         const int day = (int)rval;
+
+         rval += (double)( dmy_to_day( day, month, year,
+                              CALENDAR_JULIAN_GREGORIAN) - (long)day) - .5;
+         }
       else                             /* malformed date */
          rval = 0.;
       }
-- 
2.43.0


From 6b04fbc693526f26b2a3e0fba4a27e4a8246765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:04 +0000
Subject: [PATCH 040/187] fix: nearest point on a circle was NaN for points on
 its x-axis

---
 mpc_code.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 1cffdf6..d929e13 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -170,6 +170,12 @@ double point_to_ellipse( const double a, const double b,
       if( dist)
          *dist = fy - b;
       }
+   else if( a == b)        /* circle;  e = f = 0 if y = 0,  leading to 0/0 */
+      {
+      lat = atan2( fy, fx);
+      if( dist)
+         *dist = sqrt( fx * fx + fy * fy) - a;
+      }
    else
       {
       const double c_squared = a * a - b * b;
-- 
2.43.0


From 293df410133d3e525d534514c3d5af3df3072ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:20 +0000
Subject: [PATCH 041/187] fix: bracketed minimisation stopped the program on
 flat, kinked or exactly quadratic functions

---
 brentmin.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/brentmin.cpp b/brentmin.cpp
index f456e31..75f3bc3 100644
--- a/brentmin.cpp
+++ b/brentmin.cpp
@@ -128,7 +128,11 @@ static double cubic_min( const double *x, const double *y, int *err)
    double k12, k13, a, b, c, discr, rval;
 
    *err = 0;
-   assert( k12_denom && k13_denom && x2 != x3);
+   if( !k12_denom || !k13_denom || x2 == x3)    /* points too close together */
+      {
+      *err = 1;
+      return( 0);
+      }
    k12 = (y1 * x2 - y2 * x1) / k12_denom;
    k13 = (y1 * x3 - y3 * x1) / k13_denom;
    a = (k12 - k13) / (x2 - x3);
@@ -217,9 +221,20 @@ double brent_min_next( brent_min_t *b)
       }
    if( b->step_type == STEP_TYPE_GOLDEN)
       rval = b->x[0] + (right > left ? right : -left) * (1. - b->gold_ratio);
-   assert( rval >= b->xmin);
-   assert( rval <= b->xmax);
-   assert( rval != b->x[0]);
+         /* Roundoff,  or a function without a well-defined polynomial fit,
+         can leave us with a point outside the bracket or one we've already
+         looked at.  Take a 'plain' golden section step instead. */
+   if( !(rval > b->xmin && rval < b->xmax) || rval == b->x[0])
+      {
+      b->step_type = STEP_TYPE_GOLDEN;
+      b->gold_ratio = PHI;
+      rval = b->x[0] + (right > left ? right : -left) * (1. - PHI);
+      if( rval <= b->xmin || rval >= b->xmax || rval == b->x[0])
+         {                 /* bracket can't be made any smaller */
+         b->step_type = STEP_TYPE_DONE;
+         return( b->x[0]);
+         }
+      }
    b->next_x = rval;
    return( rval);
 }
-- 
2.43.0


From ffea9cdeb158b845924a6375f5457e15413a536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:14 +0000
Subject: [PATCH 042/187] fix: deciphering an empty variable-star designation
 read past its end

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 3347990..f8a59c4 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -219,7 +219,7 @@ int DLL_FUNC decipher_var_desig( const char DLLPTR *desig)
    int len, first,  second, rval = -2;
 
    first = toupper( desig[0]);
-   second = toupper( desig[1]);
+   second = (first ? toupper( desig[1]) : 0);
    for( len = 0; desig[len] && desig[len] != ' '; len++)
       ;
    switch( len)
-- 
2.43.0


From 2c0fd3b392f51c14724d66efba20ff4e084c39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:59 +0000
Subject: [PATCH 043/187] fix: golden-section steps could shrink to nothing and
 settle away from the minimum

---
 brentmin.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/brentmin.cpp b/brentmin.cpp
index 75f3bc3..9fd48c4 100644
--- a/brentmin.cpp
+++ b/brentmin.cpp
@@ -29,6 +29,8 @@ static void bubble_down( brent_min_t *b, int count)
 
 #define PHI 0.6180339887498948482045868343656381177203091798057628621354486227052605
 
+#define MAX_GOLD_RATIO .9
+
 #define STEP_TYPE_INITIALIZED -1
 #define STEP_TYPE_DONE        0
 #define STEP_TYPE_GOLDEN      1
@@ -250,7 +252,11 @@ int brent_min_add( brent_min_t *b, const double next_y)
       else
          b->xmin = b->x[0];
       if( b->step_type == STEP_TYPE_GOLDEN)
+         {
          b->gold_ratio = (1. + b->gold_ratio) / 2.;
+         if( b->gold_ratio > MAX_GOLD_RATIO)    /* don't let steps shrink to */
+            b->gold_ratio = MAX_GOLD_RATIO;     /* zero;  see brentmin.h     */
+         }
       }
    else                       /* no new minimum,  but the brackets can */
       {                       /* still be moved in */
-- 
2.43.0


From 6360be412b6d9ee41fec40c6d267d551f4bc38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 044/187] fix: parabolic positions long before perihelion lost
 most of their digits

---
 astfuncs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index cde9162..53c93c5 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -283,10 +283,12 @@ void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
 
    if( elem->ecc == 1.)    /* parabolic */
       {
-      double g = elem->w0 * t * .5;
+      const double g = elem->w0 * fabs( t) * .5;
 
       y = CUBE_ROOT( g + sqrt( g * g + 1.));
       true_anom = 2. * atan( y - 1. / y);
+      if( t < 0.)       /* avoids loss of precision for large negative t */
+         true_anom = -true_anom;
       }
    else           /* got the mean anomaly;  compute eccentric,  then true */
       {
-- 
2.43.0


From 4259ee196853488bd9bdf5ac4df4f0e9fdc6492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 045/187] fix: nearly parabolic positions were wrong or stopped
 the program

---
 astfuncs.cpp | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index 53c93c5..52c7e1d 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -162,7 +162,9 @@ E - e sin( E) = E - e( E - E^3/3! + E^5/5! - ...)
 quite rarely.  (I only encountered the problem because I had orbits
 that were supposed to be 'pure parabolic',  but due to roundoff,
 they had e = 1+/- epsilon,  with epsilon _very_ small.)  So 'near_parabolic'
-is only called if we've gone seven iterations without converging. */
+is only called if E is small (where the direct form can also appear to
+converge on a wrong value),  or if we've gone seven iterations without
+converging. */
 
 static double near_parabolic( const double ecc_anom, const double e)
 {
@@ -171,7 +173,7 @@ static double near_parabolic( const double ecc_anom, const double e)
    double rval = (1. - e) * ecc_anom - term;
    unsigned n = 4;
 
-   while( fabs( term) > 1e-15)
+   while( fabs( term) > 1e-16 * fabs( rval))
       {
       term *= anom2 / (double)(n * (n + 1));
       rval -= term;
@@ -186,11 +188,12 @@ solutions to Kepler's equation on sci.astro.amateur,  and I decided to
 go into excruciating detail as to how it's done below. */
 
 #define MAX_ITERATIONS 7
+#define SMALL_ECC_ANOM .3
 
 double kepler( const double ecc, double mean_anom)
 {
    double curr, err, thresh, offset = 0.;
-   double delta_curr = 1.;
+   double delta_curr = 1., sin_half;
    bool is_negative = false;
    unsigned n_iter = 0;
 
@@ -252,25 +255,28 @@ double kepler( const double ecc, double mean_anom)
       }
 
    if( ecc < 1.)
-      while( fabs( delta_curr) > thresh)
+      while( fabs( delta_curr) > (curr < 1. ? thresh * curr : thresh))
          {
-         if( n_iter++ > MAX_ITERATIONS)
+         if( n_iter++ > MAX_ITERATIONS || curr < SMALL_ECC_ANOM)
             err = near_parabolic( curr, ecc) - mean_anom;
          else
             err = curr - ecc * sin( curr) - mean_anom;
-         delta_curr = -err / (1. - ecc * cos( curr));
-         curr += delta_curr;
+         sin_half = sin( curr / 2.);         /* note (1 - e cos E) loses */
+         delta_curr = -err / (1. - ecc + 2. * ecc * sin_half * sin_half);
+         curr += delta_curr;                 /* precision for e near 1   */
          assert( n_iter < 20);
          }
    else
-      while( fabs( delta_curr) > thresh)
+      while( fabs( delta_curr) > (curr < 1. ? thresh * curr : thresh))
          {
-         if( n_iter++ > MAX_ITERATIONS && ecc < 1.01)
+         if( curr < SMALL_ECC_ANOM || (n_iter > MAX_ITERATIONS && ecc < 1.01))
             err = -near_parabolic( curr, ecc) - mean_anom;
          else
             err = ecc * sinh( curr) - curr - mean_anom;
-         delta_curr = -err / (ecc * cosh( curr) - 1.);
+         sin_half = sinh( curr / 2.);
+         delta_curr = -err / (ecc - 1. + 2. * ecc * sin_half * sin_half);
          curr += delta_curr;
+         n_iter++;
          assert( n_iter < 20);
          }
    return( is_negative ? offset - curr : offset + curr);
@@ -292,21 +298,21 @@ void comet_posn_part_ii( const ELEMENTS DLLPTR *elem, const double t,
       }
    else           /* got the mean anomaly;  compute eccentric,  then true */
       {
-      double ecc_anom;
+      const double half_ecc_anom = kepler( elem->ecc, elem->mean_anomaly) / 2.;
 
-      ecc_anom = kepler( elem->ecc, elem->mean_anomaly);
+               /* Half-angle formulae avoid loss of precision for e near 1 */
       if( elem->ecc > 1.)     /* hyperbolic case */
          {
-         x = (elem->ecc - cosh( ecc_anom));
-         y = sinh( ecc_anom);
+         x = cosh( half_ecc_anom) * sqrt( elem->ecc - 1.);
+         y = sinh( half_ecc_anom);
          }
       else           /* elliptical case */
          {
-         x = (cos( ecc_anom) - elem->ecc);
-         y =  sin( ecc_anom);
+         x = cos( half_ecc_anom) * sqrt( 1. - elem->ecc);
+         y = sin( half_ecc_anom);
          }
-      y *= elem->minor_to_major;
-      true_anom = atan2( y, x);
+      y *= sqrt( 1. + elem->ecc);
+      true_anom = 2. * atan2( y, x);
       }
 
    r0 = elem->q * (1. + elem->ecc);
-- 
2.43.0


From 8136139fc70d1c96adba68a519ad4752b970439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:38 +0000
Subject: [PATCH 046/187] fix: orbits inclined (nearly) 90 degrees got a wrong
 perihelion direction

---
 astfuncs.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/astfuncs.cpp b/astfuncs.cpp
index 52c7e1d..75d01b5 100644
--- a/astfuncs.cpp
+++ b/astfuncs.cpp
@@ -93,27 +93,21 @@ to the direction of perihelion. */
 void setup_orbit_vectors( ELEMENTS DLLPTR *e)
 {
    const double sin_incl = sin( e->incl), cos_incl = cos( e->incl);
+   const double sin_node = sin( e->asc_node), cos_node = cos( e->asc_node);
+   const double sin_per = sin( e->arg_per), cos_per = cos( e->arg_per);
    double FAR *vec;
-   double vec_len;
    double up[3];
-   unsigned i;
 
    e->minor_to_major = sqrt( fabs( 1. - e->ecc * e->ecc));
-   e->lon_per = e->asc_node + atan2( sin( e->arg_per) * cos_incl,
-                                       cos( e->arg_per));
+   e->lon_per = e->asc_node + atan2( sin_per * cos_incl, cos_per);
    vec = e->perih_vec;
 
-   vec[0] = cos( e->lon_per) * cos_incl;
-   vec[1] = sin( e->lon_per) * cos_incl;
-   vec[2] = sin_incl * sin( e->lon_per - e->asc_node);
-   vec_len = sqrt( cos_incl * cos_incl + vec[2] * vec[2]);
-   if( cos_incl < 0.)      /* for retrograde cases, make sure */
-      vec_len *= -1.;      /* 'vec' has correct orientation   */
-   for( i = 0; i < 3; i++)
-      vec[i] /= vec_len;
+   vec[0] = cos_per * cos_node - sin_per * sin_node * cos_incl;
+   vec[1] = cos_per * sin_node + sin_per * cos_node * cos_incl;
+   vec[2] = sin_per * sin_incl;
             /* 'up' is a vector perpendicular to the plane of the orbit */
-   up[0] =  sin( e->asc_node) * sin_incl;
-   up[1] = -cos( e->asc_node) * sin_incl;
+   up[0] =  sin_node * sin_incl;
+   up[1] = -cos_node * sin_incl;
    up[2] = cos_incl;
 
    vector_cross_product( e->sideways, up, vec);
-- 
2.43.0


From d0105f927fae8804702426fcdae064c54e2485a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 047/187] fix: argument of periapsis of orbits in the xy plane
 was reflected for half of them

---
 classel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index 8faad31..96f47ba 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -209,7 +209,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
          if( cos_arg_per < 0.)
             elem->arg_per = PI - elem->arg_per;
          }
-      if( e[2] < 0.)
+      if( n0 ? e[2] < 0. : e[1] * h[2] < 0.)
          elem->arg_per = PI + PI - elem->arg_per;
       }
 
-- 
2.43.0


From b2747f9bd8e7281170b9894fe990c6e479fc17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 048/187] fix: periapsis direction of (nearly) circular orbits
 could leave the orbit plane

---
 classel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index 96f47ba..1f7b5dd 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -138,7 +138,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    vector_cross_product( e, v, h);
    for( i = 0; i < 3; i++)
       e[i] = e[i] / elem->gm - r[i] / dist;
-   tval = dot_product( e, h) / h0;     /* "flatten" e vector into the rv */
+   tval = dot_product( e, h) / (h0 * h0);   /* "flatten" e vector into the rv */
    for( i = 0; i < 3; i++)             /* plane to avoid roundoff; see   */
       e[i] -= h[i] * tval;             /* above comments                 */
    ecc2 = dot_product( e, e);
-- 
2.43.0


From 1bd6da0ea160b2a4686d7019150798862046c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 049/187] fix: periapsis time of a parabola was not a number
 near periapsis

---
 classel.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/classel.cpp b/classel.cpp
index 1f7b5dd..7983c68 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -261,9 +261,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
       {
       double tau;
 
-      tau = sqrt( dist / elem->q - 1.);
-      if( r_dot_v < 0.)
-         tau = -tau;
+      tau = r_dot_v / sqrt( 2. * elem->q * elem->gm);
       elem->w0 = (3. / SQRT_2) / (elem->q * sqrt( elem->q / elem->gm));
 /*    elem->perih_time = t - tau * (tau * tau / 3. + 1) *                   */
 /*                                elem->q * sqrt( 2. * elem->q / elem->gm); */
-- 
2.43.0


From a2f48b8e94209ccd91c2090ef6ac1bbb7df67356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:33 +0000
Subject: [PATCH 050/187] fix: inclinations near 90 degrees lost half their
 digits

---
 classel.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/classel.cpp b/classel.cpp
index 7983c68..d64ccd4 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -131,9 +131,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
          elem->asc_node = 0.;  /* arbitrary choice h[0] = 0, h[1] = -epsilon */
       else
          elem->asc_node = atan2( h[0], -h[1]);
-      elem->incl = asine( n0 / h0);
-      if( h[2] < 0.)                   /* retrograde orbit */
-         elem->incl = PI - elem->incl;
+      elem->incl = atan2( n0, h[2]);
       }
    vector_cross_product( e, v, h);
    for( i = 0; i < 3; i++)
-- 
2.43.0


From a38eb577b69c88e942614b461ee3d6676513f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 051/187] fix: periapsis time of nearly parabolic orbits lost
 most of its digits

---
 classel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index d64ccd4..418adcd 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -142,8 +142,9 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    ecc2 = dot_product( e, e);
    if( fabs( ecc2 - 1.) < 1.e-14)      /* avoid roundoff issues w/nearly */
       ecc2 = 1.;                       /* parabolic orbits               */
-   elem->minor_to_major = sqrt( fabs( 1. - ecc2));
    ecc = elem->ecc = sqrt( ecc2);
+            /* (1 - ecc) is used below,  so (1 - ecc2) must be consistent with it */
+   elem->minor_to_major = sqrt( fabs( (1. - ecc) * (1. + ecc)));
 
    if( !ecc)                     /* for purely circular orbits,  e is */
       {                          /* arbitrary in the orbit plane; choose */
-- 
2.43.0


From c9c8796036c0446b844f217ed4d7d68eb7309733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:08 +0000
Subject: [PATCH 052/187] fix: eccentricity vectors that were all roundoff set
 the periapsis direction

---
 classel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classel.cpp b/classel.cpp
index 418adcd..5ecf922 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -140,6 +140,8 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    for( i = 0; i < 3; i++)             /* plane to avoid roundoff; see   */
       e[i] -= h[i] * tval;             /* above comments                 */
    ecc2 = dot_product( e, e);
+   if( ecc2 < 1.e-32)                  /* just roundoff:  direction of e */
+      ecc2 = 0.;                       /* is meaningless                 */
    if( fabs( ecc2 - 1.) < 1.e-14)      /* avoid roundoff issues w/nearly */
       ecc2 = 1.;                       /* parabolic orbits               */
    ecc = elem->ecc = sqrt( ecc2);
-- 
2.43.0


From dfa8b1fa311912b43fd2a510ed08cfd567156f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:59 +0000
Subject: [PATCH 053/187] fix: Pluto's longitude of perihelion was used as its
 argument of perihelion

---
 moid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moid.cpp b/moid.cpp
index b82eeaa..384e809 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -384,7 +384,7 @@ static const double planet_elem_rate[N_PLANET_RATES * 6] = {
    elem->asc_node = elem_array[3];
                /* For planets,  the longitude of perihelion is given. */
                /* For asteroids,  it's the argument of perihelion.    */
-   if( planet_idx < 9)
+   if( planet_idx <= N_PLANET_RATES)
       elem->arg_per = elem_array[4] - elem_array[3];
    else
       elem->arg_per = elem_array[4];
-- 
2.43.0


From 9b924042a2e50a87931d7f089d3e4d29e1848cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:59 +0000
Subject: [PATCH 054/187] fix: MOID data described another point if the minimum
 was at a node or starting point

---
 moid.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/moid.cpp b/moid.cpp
index 384e809..049ac3f 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -196,11 +196,15 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
    true_anomaly2 = true_anom_from_r( elem2, elem1->major_axis);
 // printf( "Nominal MOID true anom %f\n", true_anomaly2 * 180. / PI);
    least_dist_squared = find_point_moid_2( &idata, true_anomaly2);
+   min_true2 = true_anomaly2;
    if( true_anomaly2 && true_anomaly2 != PI)
       {
       dist_squared = find_point_moid_2( &idata, -true_anomaly2);
       if( least_dist_squared > dist_squared)
+         {
+         min_true2 = -true_anomaly2;
          least_dist_squared = dist_squared;
+         }
       }
    if( elem2->ecc < 1.)
    {
@@ -218,7 +222,10 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
          dist_squared = find_point_moid_2( &idata, pass * PI - arg_per);
 //       printf( "dist at node : %f\n", sqrt( dist_squared));
          if( dist_squared < least_dist_squared)
+            {
+            min_true2 = pass * PI - arg_per;
             least_dist_squared = dist_squared;
+            }
          }
    }
    for( pass = 0; pass < 2; pass++)
-- 
2.43.0


From d4a00376a596aceffbc1efd5e327a5b3ce242b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:35 +0000
Subject: [PATCH 055/187] fix: MOID search stepped over minima far from
 perihelion and near aphelion of elongated orbits

---
 moid.cpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/moid.cpp b/moid.cpp
index 049ac3f..b24835b 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -176,7 +176,7 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
    internal_moid_t idata;
    moid_data_t mdata2;
    double least_dist_squared = 10000.;
-   int i, j, n_steps, pass;
+   int i, j, n_steps, n_past_end, pass;
    double true_anomaly2, dist_squared, min_true2 = 0.;
    double min_true_anom = 0., max_true_anom = PI, dist;
    const double Q1 = elem1->major_axis * 2. - elem1->q;
@@ -230,7 +230,7 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
    }
    for( pass = 0; pass < 2; pass++)
       {
-      double x[3], y[3];
+      double x[3], y[3], step, next_anom;
 
       dist = sqrt( least_dist_squared);
 //    printf( "Curr distance constraint %f\n", dist);
@@ -247,12 +247,16 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
       n_steps = (int)( (max_true_anom - min_true_anom) / moid_step) + 1;
       for( i = 0; i < 3; i++)
          x[i] = y[i] = 0.;
-      for( i = -1; i <= n_steps + 1; i++)
+      step = (max_true_anom - min_true_anom) / (double)n_steps;
+      if( step < moid_step / 1000.)
+         step = moid_step;
+      next_anom = min_true_anom - step;
+      n_past_end = 0;
+      for( i = -1; n_past_end < 2; i++)
          {
-         true_anomaly2 = (max_true_anom - min_true_anom) * (double)i / (double)n_steps
-                              + min_true_anom;
-         if( pass)
-            true_anomaly2 = -true_anomaly2;
+         const double curr_anom = next_anom;
+
+         true_anomaly2 = (pass ? -curr_anom : curr_anom);
          dist_squared = find_point_moid_2( &idata, true_anomaly2);
 //       printf( "%f: %f %c\n", true_anomaly2 * 180. / PI, sqrt( dist_squared),
 //                (least_dist_squared > dist_squared) ? '*' : ' ');
@@ -261,6 +265,25 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
             min_true2 = true_anomaly2;
             least_dist_squared = dist_squared;
             }
+         if( curr_anom > max_true_anom - step / 1000.)
+            n_past_end++;
+         next_anom = curr_anom + step;
+         if( elem2->ecc < 1.)
+            {                    /* limit step in eccentric anomaly, too */
+            const double limit = curr_anom + step *
+                     (1. + elem2->ecc * cos( curr_anom)) / elem2->minor_to_major;
+
+            if( next_anom > limit)
+               next_anom = limit;
+            }
+         if( curr_anom > 0. && curr_anom < PI)
+            {        /* far from perihelion,  a small change in true anomaly */
+                     /* can be a large change in r;  take smaller steps there */
+            const double limit = true_anom_from_r( elem2, idata.r2 * 1.15);
+
+            if( limit > curr_anom && limit < next_anom && limit < PI)
+               next_anom = limit;
+            }
          x[0] = x[1];   y[0] = y[1];
          x[1] = x[2];   y[1] = y[2];
          x[2] = true_anomaly2;
-- 
2.43.0


From d8b35027088bba63950804afc19d5d9eb469d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:18 +0000
Subject: [PATCH 056/187] fix: asking for the orbit of a body not in the table
 computed pointers outside it

---
 moid.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/moid.cpp b/moid.cpp
index b24835b..6967aab 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -392,8 +392,6 @@ static const double planet_elem_rate[N_PLANET_RATES * 6] = {
 /* Nept */   0.00026291,  0.00005105,  0.00035372,   -0.00508664,  -0.32241464,   218.45945325,
 /* Plut */  -0.00031596,  0.00005170,  0.00004818,   -0.01183482,  -0.04062942,   145.20780515 };
 
-   const double *pdata = planet_elem + (planet_idx - 1) * 6;
-   const double *rate_data = planet_elem_rate + (planet_idx - 1) * 6;
    double elem_array[6];
    int i;
 
@@ -401,9 +399,9 @@ static const double planet_elem_rate[N_PLANET_RATES * 6] = {
       return( -1);
    for( i = 0; i < 6; i++)
       {
-      elem_array[i] = pdata[i];
+      elem_array[i] = planet_elem[(planet_idx - 1) * 6 + i];
       if( planet_idx <= N_PLANET_RATES)
-         elem_array[i] += rate_data[i] * t_cen;
+         elem_array[i] += planet_elem_rate[(planet_idx - 1) * 6 + i] * t_cen;
       }
    for( i = 2; i < 6; i++)
       elem_array[i] = centralize_angle( elem_array[i] * PI / 180.);
-- 
2.43.0


From dad351ac21155d21e0d0708cc799befdf79821e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:14 +0000
Subject: [PATCH 057/187] fix: MOIDs of crossing orbits came out up to some
 thousands of kilometres too large

---
 moid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moid.cpp b/moid.cpp
index 6967aab..2c94c69 100644
--- a/moid.cpp
+++ b/moid.cpp
@@ -294,7 +294,7 @@ double DLL_FUNC find_moid_full( const ELEMENTS *elem1, const ELEMENTS *elem2, mo
 
             brent_min_init( &b, x[0], y[0], x[1], y[1], x[2], y[2]);
             b.tolerance  = .000001 * PI / 180.;
-            b.ytolerance  = .0000001;
+            b.ytolerance  = 1e-14;
             while( b.step_type)
                {
                const double new_true = brent_min_next( &b);
-- 
2.43.0


From 010896843f2b1bcbc69161c85459e67a99eb16d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 058/187] fix: dates with impossible months read outside the
 table of month lengths

---
 date.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/date.cpp b/date.cpp
index 6cc74df..fcf492e 100644
--- a/date.cpp
+++ b/date.cpp
@@ -710,9 +710,9 @@ long DLL_FUNC dmy_to_day( const int day, const int month, const long year,
    if( !rval)
       {
       if( day == RETURN_DAYS_IN_MONTH)
-         return( mdata[month - 1]);
+         return( month > 0 && month <= N_MONTHS ? mdata[month - 1] : 0);
       jd = year_ends[0];
-      for( int i = 0; i < month - 1; i++)
+      for( int i = 0; i < month - 1 && i < N_MONTHS; i++)
          jd += mdata[i];
       jd += (long)day - 1;
       }
-- 
2.43.0


From 2ccb5ee24a3c17a9ac1781022d900c383630cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 059/187] fix: orbit records shorter than their header were
 read past their end

---
 sof.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sof.cpp b/sof.cpp
index ab038b9..6a7b076 100644
--- a/sof.cpp
+++ b/sof.cpp
@@ -87,16 +87,20 @@ int extract_sof_data_ex( ELEMENTS *elem, const char *buff, const char *header,
          extra_info[i] = 0.;
    while( *header >= ' ')
       {
-      size_t i = 0;
+      size_t i = 0, len = 0;
       char tbuff[80];
 
       while( header[i] >= ' ' && header[i] != '|')
          i++;
       if( i < 2 || i >= sizeof( tbuff))
          return( -1);
-      memcpy( tbuff, buff, i);
-      tbuff[i] = '\0';
-      if( header[1] == ' ')
+      while( len < i && (unsigned char)buff[len] >= ' ')
+         len++;                   /* line may end before the header does */
+      memcpy( tbuff, buff, len);
+      tbuff[len] = '\0';
+      if( !len)                   /* column not present on this line */
+         ;
+      else if( header[1] == ' ')
          {
          switch( header[0])
             {
@@ -178,12 +182,16 @@ int extract_sof_data_ex( ELEMENTS *elem, const char *buff, const char *header,
             fields_found |= SOF_ARG_PERIH_FOUND;
             break;
          }
-      if( !memcmp( header, "rms", 3) && extra_info)
+      if( len && !memcmp( header, "rms", 3) && extra_info)
          extra_info[3] = atof( tbuff);
+      buff += len;
       if( header[i] == '|')
+         {
          i++;
+         if( (unsigned char)*buff >= ' ')
+            buff++;
+         }
       header += i;
-      buff += i;
       }
    if( (fields_found & MIN_FIELDS_NEEDED) == MIN_FIELDS_NEEDED)
       {
-- 
2.43.0


From 92ca6d42c573a532b5893d5f105bba1abd3ad1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 060/187] fix: inclinations over 100 degrees and axes over 1000
 AU lost their first digit in Lowell records

---
 mpcorb.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mpcorb.cpp b/mpcorb.cpp
index 160ec8a..aa0f722 100644
--- a/mpcorb.cpp
+++ b/mpcorb.cpp
@@ -122,17 +122,21 @@ long extract_mpcorb_dat( ELEMENTS *elem, const char *buff)
    extract_mpcorb_dat( ) function,  except using 'astorb.dat'-formatted
    data.       */
 
-static long extract_long( const char *ibuff)
+static long extract_long( const char *ibuff, int width)
 {
    long rval = 0;
 
-   while( *ibuff == ' ')      /* skip leading spaces */
+   while( width && *ibuff == ' ')      /* skip leading spaces */
+      {
       ibuff++;
-   while( *ibuff != ' ')
+      width--;
+      }
+   while( width && ((*ibuff >= '0' && *ibuff <= '9') || *ibuff == '.'))
       {
       if( *ibuff != '.')
          rval = rval * 10 + (long)( *ibuff - '0');
       ibuff++;
+      width--;
       }
    return( rval);
 }
@@ -146,12 +150,12 @@ long extract_astorb_dat( ELEMENTS *elem, const char *buff)
        && sscanf( buff + 41, "%lf %lf", &telem.abs_mag, &telem.slope_param) == 2)
       {
       epoch_jd = atoi( buff + 106);
-      telem.mean_anomaly = (double)extract_long( buff + 115) / 1.e+6;
-      telem.arg_per      = (double)extract_long( buff + 126) / 1.e+6;
-      telem.asc_node     = (double)extract_long( buff + 137) / 1.e+6;
-      telem.incl         = (double)extract_long( buff + 148) / 1.e+6;
-      telem.ecc          = (double)extract_long( buff + 160) / 1.e+8;
-      telem.major_axis = atof( buff + 169);
+      telem.mean_anomaly = (double)extract_long( buff + 115, 10) / 1.e+6;
+      telem.arg_per      = (double)extract_long( buff + 126, 10) / 1.e+6;
+      telem.asc_node     = (double)extract_long( buff + 137, 10) / 1.e+6;
+      telem.incl         = (double)extract_long( buff + 147, 10) / 1.e+6;
+      telem.ecc          = (double)extract_long( buff + 158, 10) / 1.e+8;
+      telem.major_axis = atof( buff + 168);
       epoch_jd = dmy_to_day( epoch_jd % 100L,           /* day */
                              (epoch_jd / 100L) % 100L,  /* month */
                              epoch_jd / 10000L,         /* year */
-- 
2.43.0


From fa15c97ade4723b4aa19cb5025a0c1f2721795a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 061/187] fix: comets could overflow the output buffer

---
 mpc2sof.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpc2sof.cpp b/mpc2sof.cpp
index 4c72a89..056df81 100644
--- a/mpc2sof.cpp
+++ b/mpc2sof.cpp
@@ -211,8 +211,10 @@ int main( const int argc, const char **argv)
             strcat( tbuff, "           ");    /* rms, number obs */
             strcat( tbuff, "                                     \n");     /* Tlast, perts, H, G */
             assert( strlen( tbuff) == reclen);
-            memcpy( obuff + n_out * reclen, tbuff, reclen);
             n_out++;
+            if( IS_POWER_OF_TWO( n_out))
+               obuff = (char *)realloc( obuff, n_out * 2 * reclen);
+            memcpy( obuff + (n_out - 1) * reclen, tbuff, reclen);
             }
       fclose( ifile);
       }
-- 
2.43.0


From 009be944ff621863a88b816a86b6e366e957ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:43 +0000
Subject: [PATCH 062/187] fix: diagnostic for a full destination read past its
 end

---
 snprintf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snprintf.cpp b/snprintf.cpp
index fb549c8..77d293b 100644
--- a/snprintf.cpp
+++ b/snprintf.cpp
@@ -195,8 +195,8 @@ size_t strlcpy_err( char *dst, const char *src, const size_t dsize)
 
    if( rval >= dsize)
       {
-      fprintf( stderr, "strlcpy overflow: dsize = %ld, rval %ld, '%s', '%s'\n",
-                     (long)dsize, (long)rval, dst, src);
+      fprintf( stderr, "strlcpy overflow: dsize = %ld, rval %ld, '%.*s', '%s'\n",
+                     (long)dsize, (long)rval, (int)dsize, dst, src);
       assert( rval >= dsize);
       exit( -1);
       }
@@ -209,8 +209,8 @@ size_t strlcat_err( char *dst, const char *src, const size_t dsize)
 
    if( rval >= dsize)
       {
-      fprintf( stderr, "strlcat overflow: dsize = %ld, rval %ld, '%s', '%s'\n",
-                     (long)dsize, (long)rval, dst, src);
+      fprintf( stderr, "strlcat overflow: dsize = %ld, rval %ld, '%.*s', '%s'\n",
+                     (long)dsize, (long)rval, (int)dsize, dst, src);
       assert( rval >= dsize);
       exit( -1);
       }
-- 
2.43.0


From 29bd96f17536ee7ef64649351e2acdff6c497cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:09 +0000
Subject: [PATCH 063/187] fix: element listing wrote past small buffers, and
 cut off units

---
 showelem.cpp | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/showelem.cpp b/showelem.cpp
index c24b5c3..4fe65b9 100644
--- a/showelem.cpp
+++ b/showelem.cpp
@@ -89,6 +89,16 @@ static double normal_vect( double *norm, const double *ival)
    return( rval);
 }
 
+      /* Adds spaces until 'obuff' is (at least) 'len' bytes long. */
+static void pad_with_spaces( char *obuff, const size_t obuff_size,
+                             const size_t len)
+{
+   const size_t ilen = strlen( obuff);
+
+   if( ilen < len)
+      snprintf_append( obuff, obuff_size, "%*s", (int)( len - ilen), "");
+}
+
 static int show_formatted_dist( char *obuff, const size_t obuff_size,
            const double dist_in_au, const int precision)
 
@@ -97,8 +107,8 @@ static int show_formatted_dist( char *obuff, const size_t obuff_size,
 
    if( dist_in_au < 0.)
       {
-      *obuff++ = '-';
-      return( show_formatted_dist( obuff, obuff_size, -dist_in_au, precision));
+      strlcpy_err( obuff, "-", obuff_size);
+      return( show_formatted_dist( obuff + 1, obuff_size - 1, -dist_in_au, precision));
       }
    if( dist_in_au > 999999.)
       {
@@ -119,7 +129,10 @@ static int show_formatted_dist( char *obuff, const size_t obuff_size,
    while( obuff[i++] != '.')
       n_digits++;
    if( n_digits < precision + 4)
-      obuff[i + precision + 4 - n_digits] = '\0';
+      {
+      if( i + precision + 4 - n_digits < (int)strlen( obuff))
+         obuff[i + precision + 4 - n_digits] = '\0';
+      }
    else
       obuff[i - 1] = '\0';
    if( in_km)
@@ -210,11 +223,9 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
    n_lines++;
    if( is_cometary || elem->ecc >= 1.)
       {
-      *obuff = 'q';
+      strlcpy_err( obuff, "q", endptr - obuff);
       show_formatted_dist( obuff + 1, (endptr - obuff) - 1, perihelion_dist, precision);
-      for( i = (int)strlen( obuff); i < n_digits_to_show + 9; i++)
-         obuff[i] = ' ';
-      obuff[n_digits_to_show + 9] = '\0';
+      pad_with_spaces( obuff, endptr - obuff, n_digits_to_show + 9);
       }
    else
       {
@@ -244,10 +255,8 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
                obuff[2] = 'N';
          }
       else
-         strlcpy( obuff, nineteen_blank_spaces, endptr - obuff);
-      for( i = 19; i < n_digits_to_show + 9; i++)
-         obuff[i] = ' ';
-      obuff[i] = '\0';
+         strlcpy_err( obuff, nineteen_blank_spaces, endptr - obuff);
+      pad_with_spaces( obuff, endptr - obuff, n_digits_to_show + 9);
       }
    else
       {
@@ -270,19 +279,17 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
    if( is_cometary || elem->ecc >= 1.)
       {
       if( elem->major_axis > -0.0011 || elem->major_axis < -100000.)
-         *obuff = '\0';             /* z won't fit or is meaninglessly large */
+         strlcpy_err( obuff, "", endptr - obuff);   /* z won't fit or is meaninglessly large */
       else
          snprintf_err( obuff, endptr - obuff, "z%*.*f",
                   n_digits_to_show + 5, n_digits_to_show, 1. / elem->major_axis);
       }
    else
       {
-      *obuff = 'a';
+      strlcpy_err( obuff, "a", endptr - obuff);
       show_formatted_dist( obuff + 1, (endptr - obuff) - 1, elem->major_axis, precision);
       }
-   for( i = (int)strlen( obuff); i < n_digits_to_show + 9; i++)
-      obuff[i] = ' ';
-   obuff[i] = '\0';
+   pad_with_spaces( obuff, endptr - obuff, n_digits_to_show + 9);
    obuff += strlen( obuff);
 
    snprintf_err( obuff, endptr - obuff, "Node %*.*f", n_digits_to_show + 6,
@@ -302,7 +309,7 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
                        n_digits_to_show + 3, elem->ecc);
       lop_digits( obuff + 8, precision);
       }
-   obuff[n_digits_to_show + 9] = '\0';
+   pad_with_spaces( obuff, endptr - obuff, n_digits_to_show + 9);
    obuff += strlen( obuff);
 
    snprintf_err( obuff, endptr - obuff, "Incl.%*.*f", n_digits_to_show + 6,
-- 
2.43.0


From a8d7efb215c7c360a1ab061e432c586291fc87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:09 +0000
Subject: [PATCH 064/187] fix: orbital periods in days were too short by one
 part in 50000

---
 showelem.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/showelem.cpp b/showelem.cpp
index 4fe65b9..9d23c29 100644
--- a/showelem.cpp
+++ b/showelem.cpp
@@ -323,11 +323,9 @@ int DLL_FUNC elements_in_mpc_format( char *obuff, const size_t obuff_size,
 
    if( !is_cometary && elem->ecc < 1.)
       {
-      const double GAUSS_K = .01720209895; /* Gauss' gravitational constant */
-      const double SOLAR_GM = (GAUSS_K * GAUSS_K);
-      const double t0 = elem->major_axis *
-                      sqrt( elem->major_axis * SOLAR_GM / elem->gm);
-      const double t0_in_days = t0 * 365.25;
+      const double t0_in_days = 2. * PI * elem->major_axis *
+                      sqrt( elem->major_axis / elem->gm);
+      const double t0 = t0_in_days / 365.25;
       const double apoapsis_dist =
              perihelion_dist * (1. + elem->ecc) / (1. - elem->ecc);
       char tbuff[40];
-- 
2.43.0


From 65ca5e15cdbbf0ecfa0ae466b5dd9e171475d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:23 +0000
Subject: [PATCH 065/187] fix: uncertainties of one ADES observation were shown
 for later ones

---
 ades2mpc.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 06ec766..bc3d448 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -933,6 +933,13 @@ static void setup_observation( ades2mpc_t *cptr)
    cptr->id_set = 0;
    cptr->spacecraft_center = 399;      /* default to geocentric */
    cptr->full_t2k = NOT_A_VALID_TIME;
+   cptr->rms_ra[0] = cptr->rms_dec[0] = cptr->corr[0] = '\0';
+   cptr->rms_mag[0] = cptr->rms_time[0] = '\0';
+   cptr->full_ra[0] = cptr->full_dec[0] = cptr->full_mag[0] = '\0';
+   cptr->notes[0] = cptr->program_code[0] = '\0';
+   cptr->trk_sub[0] = cptr->obs_id[0] = cptr->trk_id[0] = '\0';
+   cptr->passband[0] = cptr->passband[1] = '\0';
+   memset( cptr->spacecraft_vel, 0, sizeof( cptr->spacecraft_vel));
 }
 
 /* The following checks to see if the input is astrometry with "Dave
-- 
2.43.0


From 8b28e9bf16e8a56ad1be5dfd43fe554d7ab7fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:23 +0000
Subject: [PATCH 066/187] fix: ADES correlations were lost if the RA and dec
 uncertainties were equal

---
 ades2mpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index bc3d448..ae05d36 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -436,7 +436,7 @@ static int get_a_line( char *obuff, const size_t obuff_size, ades2mpc_t *cptr)
    if (cptr->rms_ra[0])
       {
       snprintf_err( obuff, obuff_size, "COM Sigmas %s", cptr->rms_ra);
-      if( strcmp( cptr->rms_ra, cptr->rms_dec))
+      if( strcmp( cptr->rms_ra, cptr->rms_dec) || atof( cptr->corr))
          {
          snprintf_append( obuff, obuff_size, "x%s", cptr->rms_dec);
          if( atof( cptr->corr))
-- 
2.43.0


From 727c50f52c98c33ba05936dd06c2f521bc791782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:24 +0000
Subject: [PATCH 067/187] fix: ADES observing mode after <sys> replaced the
 spacecraft/rover flag

---
 ades2mpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index ae05d36..fa9fd5f 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -631,7 +631,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          strcpy( cptr->passband, name);
          break;
       case ADES_mode:
-         if( len == 3)
+         if( len == 3 && !cptr->line2[0])
             {     /* https://www.minorplanetcenter.net/iau/info/ADESFieldValues.html */
             const char *modes =  "CCCD BCMO nVID PPHO eENC pPMT"
                                 " MMIC TMER CTDI EOCC ?UNK ";
-- 
2.43.0


From 1e8df886d79dfdc7fbbae638b63d5e5fec85d22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:24 +0000
Subject: [PATCH 068/187] fix: over-long ADES times overwrote the RA and other
 columns

---
 ades2mpc.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index fa9fd5f..2145ade 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -374,27 +374,32 @@ static inline void pack_mpc_reference( char *packed, const char *ref)
       }
 }
 
-static inline size_t move_fits_time( char *optr, const char *iptr)
+/* Returns the number of characters in the (full-precision) time;  only
+the first TIME_FIELD_LEN go into the record. */
+
+#define TIME_FIELD_LEN 17
+
+static inline size_t move_fits_time( char *optr, const char *iptr,
+                                     const size_t len)
 {
-   char *optr0 = optr;
+   size_t rval = 0;
 
-   if( iptr[4] == '-' && iptr[7] == '-' && iptr[10] == 'T'
+   if( len > 13 && iptr[4] == '-' && iptr[7] == '-' && iptr[10] == 'T'
                && iptr[13] == ':')
       {
       const int century = iptr[0] * 10 + iptr[1] - '0' * 11;
+      size_t i;
 
-      *optr++ = int_to_mutant_hex_char( century);
-      iptr += 2;
-      while( *iptr && *iptr != 'Z')
-         {
-         if( *iptr >= '0' && *iptr <= '9')
-            *optr++ = *iptr;
-         else if( *iptr == 'T')
-            *optr++ = ':';
-         iptr++;
-         }
+      optr[rval++] = int_to_mutant_hex_char( century);
+      for( i = 2; i < len && iptr[i] != 'Z'; i++)
+         if( (iptr[i] >= '0' && iptr[i] <= '9') || iptr[i] == 'T')
+            {
+            if( rval < TIME_FIELD_LEN)
+               optr[rval] = (iptr[i] == 'T' ? ':' : iptr[i]);
+            rval++;
+            }
       }
-   return( optr - optr0);
+   return( rval);
 }
 
 static inline int place_value( char *optr, const char *iptr, const size_t ilen,
@@ -605,7 +610,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          {
          const bool too_far_in_future = (atoi( tptr) > 2099);
 
-         if( move_fits_time( cptr->line + 15, tptr) > 17 || too_far_in_future)
+         if( move_fits_time( cptr->line + 15, tptr, len) > TIME_FIELD_LEN || too_far_in_future)
             {
             char *zptr = strchr( name, 'Z');
 
-- 
2.43.0


From 0d4039cf94d63a9b280f507c0e4dfc2baa745d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:24 +0000
Subject: [PATCH 069/187] fix: ADES observer positions without a decimal point
 were not handled

---
 ades2mpc.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 2145ade..d9a58a2 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -727,8 +727,15 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                snprintf_err( name, sizeof( name), "%.13f", atof( name));
                nlen = 12;
                }
+            if( !strchr( name, '.'))         /* no decimal point either */
+               {
+               assert( strlen( name) < sizeof( name) - 2);
+               strlcat_err( name, ".", sizeof( name));
+               nlen++;
+               }
             if( *name != '+' && *name != '-')   /* no sign provided; */
                {                             /* insert one */
+               assert( nlen < (int)sizeof( name) - 1);
                nlen++;
                memmove( name + 1, name, nlen);
                *name = '+';
@@ -766,9 +773,17 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             }
          else               /* roving observer */
             {
-            char *tptr2 = strchr( name, '.');
+            char *tptr2;
             size_t loc;
 
+            if( !strchr( name, '.') && itag != ADES_pos3)
+               {
+               strlcat_err( name, ".", sizeof( name));
+               len++;
+               }
+            tptr2 = strchr( name, '.');
+
+            assert( itag == ADES_pos3 || tptr2 - name < 6);
             if( itag == ADES_pos1)     /* East longitude */
                loc = 37 - (tptr2 - name);
             else if( itag == ADES_pos2)
-- 
2.43.0


From 1f56442192ec50df052a17931090ad5e3beb7cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:24 +0000
Subject: [PATCH 070/187] fix: malformed ADES data could be read or stored
 outside its buffers

---
 ades2mpc.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index d9a58a2..5039160 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -310,10 +310,10 @@ static int find_tag( const char *buff, size_t len)
       buff++;
       len--;
       }
-   if( !memcmp( buff, "ades", 4))
+   if( len >= 4 && !memcmp( buff, "ades", 4))
       rval = 0;
    for( i = 0; tags[i] && rval == -1; i++)
-      if( !memcmp( tags[i], buff, len) && !tags[i][len])
+      if( !strncmp( tags[i], buff, len) && strlen( tags[i]) == len)
          rval = i + 1;
    return( rval);
 }
@@ -561,6 +561,11 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
       memcpy( name, tptr, len);
       name[len] = '\0';
       }
+   else        /* over-long text;  most tags don't expect this */
+      {
+      memcpy( name, tptr, sizeof( name) - 1);
+      name[sizeof( name) - 1] = '\0';
+      }
    switch( itag)
       {
       case ADES_mpcCode:
@@ -604,7 +609,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          }
          break;
       case ADES_stn:
-         memcpy( cptr->line + 77, tptr, 3);
+         memcpy( cptr->line + 77, tptr, (len < 3) ? len : 3);
          break;
       case ADES_obsTime:
          {
@@ -706,6 +711,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
       case ADES_pos2:
       case ADES_pos3:
          assert( cptr->line[14] == 'S' || cptr->line[14] == 'V');
+         assert( len < sizeof( name));
          if( cptr->line[14] == 'S')    /* satellite offset */
             {
             const int sign_loc = 34 + (itag - ADES_pos1) * 12;
@@ -810,6 +816,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             tptr++;
             len--;
             }
+         assert( len < sizeof( cptr->full_ra));
          if( place_value( cptr->line + 32, tptr, len, 3))
             {
             memcpy( cptr->full_ra, tptr, len);     /* 'overlong' RA */
@@ -824,6 +831,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
             }
          else
             cptr->line[44] = '+';
+         assert( len < sizeof( cptr->full_dec) - 1);
          if( place_value( cptr->line + 45, tptr, len, 2))
             {              /* 'overlong' dec */
             cptr->full_dec[0] = cptr->line[44];
@@ -869,7 +877,7 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
          char tbuff[20];
          int i = 0;
 
-         assert( len < sizeof( name));
+         assert( len < sizeof( name) - 2);
          while( isdigit( name[i]))
             i++;
          if( !name[i])        /* simple numbered object,  desig is nothing but */
@@ -1151,7 +1159,7 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
       }
    if( !rval)
       rval = check_for_tholen_sigmas( cptr, (obuff == buff ? temp_obuff : obuff), buff);
-   if( !rval && buff[1] == ' ' && (buff[0] == '#' || buff[0] == '!'))
+   if( !rval && (buff[0] == '#' || buff[0] == '!') && buff[1] == ' ')
       {
       rval = process_psv_header( cptr, (obuff == buff ? temp_obuff : obuff), buff);
       if( rval)
@@ -1203,16 +1211,17 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
                {
                if( tptr[1] == '/')
                   {
-                  cptr->depth--;
-                  if( cptr->depth < 0 || cptr->tags[cptr->depth] != tag_idx)
+                  if( cptr->depth)
+                     cptr->depth--;
+                  else
+                     rval = ADES_CLOSING_UNOPENED_TAG;
+                  if( cptr->tags[cptr->depth] != tag_idx)
                      rval = ADES_CLOSING_UNOPENED_TAG;
                   }
+               else if( cptr->depth == MAX_DEPTH)
+                  rval = ADES_DEPTH_MAX;
                else
-                  {
                   cptr->tags[cptr->depth++] = tag_idx;
-                  if( cptr->depth == MAX_DEPTH)
-                     rval = ADES_DEPTH_MAX;
-                  }
                if( tag_idx == ADES_optical)
                   {
                   if( tptr[1] == '/')
-- 
2.43.0


From d178237699349883e7660c2a5ef7b3a4e84ffb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:54 +0000
Subject: [PATCH 071/187] fix: ADES header text and malformed tags could be
 translated over and over

---
 ades2mpc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 5039160..b621958 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1202,7 +1202,10 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
          while( tptr[len] && tptr[len] != '>')
             len++;
          if( tptr[len] != '>')
+            {
+            cptr->prev_line_passed_through = 1;
             return( ADES_MALFORMED_TAG);
+            }
          else
             {
             const int tag_idx = find_tag( tptr + 1, len - 1);
@@ -1248,8 +1251,10 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
          return rval;
       tptr = skip_whitespace( tptr);
       }
-   if( rval)
+   if( cptr->getting_lines)
       get_a_line( obuff, obuff_size, cptr);
+   else if( rval)       /* line is done with;  don't look at it again */
+      cptr->prev_line_passed_through = 1;
    if( orig_obuff)
       strlcpy_err( orig_obuff, temp_obuff, obuff_size);
    return( rval);
-- 
2.43.0


From 01ff8061f67a41847cccdca3322c694ca9894c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:42 +0000
Subject: [PATCH 072/187] fix: ADES spacecraft positions with many decimals ran
 into the next coordinate

---
 ades2mpc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index b621958..6d31285 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -772,9 +772,12 @@ static int process_ades_tag( char *obuff, ades2mpc_t *cptr, const int itag,
                }
             if( decimal_loc)
                {
+               int n_bytes = (nlen > 11 ? 10 : nlen - 1);
+
                decimal_loc -= (int)(tptr2 - name);
-               memcpy( &cptr->line2[decimal_loc + 1], name + 1,
-                                           (nlen > 11 ? 10 : nlen - 1));
+               if( n_bytes > sign_loc + 11 - decimal_loc)
+                  n_bytes = sign_loc + 11 - decimal_loc;  /* stay in own columns */
+               memcpy( &cptr->line2[decimal_loc + 1], name + 1, n_bytes);
                }
             }
          else               /* roving observer */
-- 
2.43.0


From cfa980ed2a564b8bc3aca767d8f6993c14dc58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:39 +0000
Subject: [PATCH 073/187] fix: precession between two epochs,  neither of them
 J2000,  was multiplied in the wrong order

---
 precess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/precess.cpp b/precess.cpp
index 25138f2..a9a26b8 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -188,9 +188,9 @@ int DLL_FUNC setup_ecliptic_precession( double DLLPTR *matrix,
          setup_ecliptic_precession_from_j2000( tmatrix, year_to);
          for( i = 0; i < 3; i++)
             for( j = 0; j < 3; j++)
-               product[j + i * 3] = matrix[i * 3    ] * tmatrix[j]
-                                  + matrix[i * 3 + 1] * tmatrix[j + 3]
-                                  + matrix[i * 3 + 2] * tmatrix[j + 6];
+               product[j + i * 3] = tmatrix[i * 3    ] * matrix[j]
+                                  + tmatrix[i * 3 + 1] * matrix[j + 3]
+                                  + tmatrix[i * 3 + 2] * matrix[j + 6];
          memcpy( matrix, product, 9 * sizeof( double));
          }
       }
-- 
2.43.0


From 1738fddcd2c1bc7fcb442dffc28128039c60d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:39 +0000
Subject: [PATCH 074/187] fix: azimuths at the poles were mirrored (north) or
 reversed (south)

---
 alt_az.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index 10078de..2093348 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -35,7 +35,7 @@ static void ra_dec_to_alt_az( const double hr_ang, const double dec,
 
    *alt = asine( sin( lat) * sin( dec) + cos_lat * cos( dec) * cos( hr_ang));
    if( cos_lat < .00001)         /* polar case */
-      *az = hr_ang;
+      *az = (lat > 0. ? -hr_ang : hr_ang + PI);
    else
       {
       temp = (sin( dec) - sin( *alt) * sin( lat)) / (cos( *alt) * cos_lat);
@@ -99,7 +99,7 @@ static void alt_az_to_ra_dec( double alt, double az,
    sin_dec = sin( lat) * sin( alt) + cos_lat * cos( alt) * cos( az);
    *dec = asine( sin_dec);
    if( cos_lat < .00001)         /* polar case */
-      *hr_ang = az + PI;
+      *hr_ang = (lat > 0. ? PI - az : az);
    else
       {
       temp = cos_lat * cos( *dec);
-- 
2.43.0


From dc82206aec04868e108f0691bda1b92faa4d3e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:39 +0000
Subject: [PATCH 075/187] fix: alt/az to RA/dec left out the nutation that
 RA/dec to alt/az includes

---
 alt_az.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index 2093348..5b5d3d6 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -116,12 +116,16 @@ void DLL_FUNC full_alt_az_to_ra_dec( DPT DLLPTR *ra_dec,
                               const DPT DLLPTR *alt_az,
                               const double jd_utc, const DPT DLLPTR *latlon)
 {
-   double hr_ang, ra;
+   double hr_ang, ra, nutation_lon;
+   const double t_centuries = (jd_utc - J2000) / 36525.;
+   const double cos_obliq_2000 = 0.917482062069181825744000384639406458043;
    DPT tmp;
 
    alt_az_to_ra_dec( alt_az->y, alt_az->x, &hr_ang,
                                          &tmp.y, latlon->y);
+   nutation( t_centuries, &nutation_lon, NULL);
    ra = hr_ang + green_sidereal_time( jd_utc) + latlon->x;
+   ra += cos_obliq_2000 * nutation_lon * (PI / 180.) / 3600.;
    tmp.x = fmod( -ra, TWO_PI);
    precess_pt( ra_dec, &tmp, 2000. + (jd_utc - J2000) / 365.25, 2000.);
 }
-- 
2.43.0


From 9622be65809a0304a27c111a0c0dda305db84782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:39 +0000
Subject: [PATCH 076/187] fix: last day of an Earth-orientation file with data
 on every line was reported a day early

---
 eop_prec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index fae169f..46bc64f 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -170,8 +170,8 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
             rval = EOP_FILE_WRONG_FORMAT;           /* this many lines */
          if( rval)   /* slightly tricky method to free up eop_data,  if */
             load_earth_orientation_params( NULL, NULL);  /* it's been alloced */
-         else                            /* get MJD for preceding day */
-            rval = atoi( buff + 7) - 1;
+         else                            /* get MJD for last usable day */
+            rval = (int)( eop_jd0 - 2400000.499) + eop_usable - 1;
          }
       if( ifile)
          fclose( ifile);
-- 
2.43.0


From a1252f9b0404d013caad0fdb0fa2a4f6f330cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:23 +0000
Subject: [PATCH 077/187] fix: cubic term of the general precession was ten
 times the IAU1976 value

---
 precess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precess.cpp b/precess.cpp
index a9a26b8..1f72b47 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -90,7 +90,7 @@ static int setup_ecliptic_precession_from_j2000( double DLLPTR *matrix, const do
    const double eta = t * (47.0029 * S2R + (-.03302 * S2R + 6.e-5 * S2R * t) * t);
    const double pie = 174.876384 * PI / 180. -
            t * (869.8089 * S2R - .03536 * S2R * t);
-   const double p = t * (5029.0966 * S2R + (1.11113 * S2R - 6.e-5 * S2R * t) * t);
+   const double p = t * (5029.0966 * S2R + (1.11113 * S2R - 6.e-6 * S2R * t) * t);
 
    set_identity_matrix( matrix);
 #ifdef UNNECESSARY_MATH
-- 
2.43.0


From 3c8e3db614f188c8874014daec81e19bd82fbd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:37 +0000
Subject: [PATCH 078/187] fix: Andoyer distance between coincident or antipodal
 points was not a number

---
 dist.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dist.cpp b/dist.cpp
index f91f031..75db80c 100644
--- a/dist.cpp
+++ b/dist.cpp
@@ -82,10 +82,14 @@ double earth_dist( const double lat1, const double lon1,
    const double cos_lambda2 = cos_lambda * cos_lambda;
    const double s = sin_g2 * cos_lambda2 + cos_f2 * sin_lambda2;
    const double c = cos_g2 * cos_lambda2 + sin_f2 * sin_lambda2;
+
+   if( s == 0.)            /* points are identical */
+      return( 0.);
+
    const double omega = atan( sqrt( s / c));
    const double r = sqrt( s * c) / omega;
    const double d = 2. * omega;
-   const double h1 = (3. * r - 1.) / (2. * c);
+   const double h1 = (c ? (3. * r - 1.) / (2. * c) : 0.);
    const double h2 = (3. * r + 1.) / (2. * s);
    const double rval = d * (1. + flattening *
                        (h1 * sin_f2 * cos_g2 - h2 * cos_f2 * sin_g2));
-- 
2.43.0


From c06464daa80e3645de7fbd2d38c4b9f10900c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:46 +0000
Subject: [PATCH 079/187] fix: a wrong variable in the Vincenty distance cost
 up to five millimeters

---
 dist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dist.cpp b/dist.cpp
index 75db80c..01f18ff 100644
--- a/dist.cpp
+++ b/dist.cpp
@@ -365,7 +365,7 @@ double vincenty_earth_dist( const double lat1, const double lon1,
    const double delta_o = big_b * sin_o *
               (cos_2om + (big_b / 4.) * (cos_o * temp3
             - (big_b / 6.) * cos_2om * (-3 + 4 * sin_o * sin_o)
-            * (-3. + 4. * cos_o * cos_o)));
+            * (-3. + 4. * cos_2om * cos_2om)));
    const double rval = b * big_a_poly( usquared) * (o - delta_o);
    if( azimuth)
       {
-- 
2.43.0


From adae08853f5897171f76800aae9dc496656620ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:41 +0000
Subject: [PATCH 080/187] fix: negative right ascensions were rounded up to the
 next second when finding constellations

---
 conbound.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conbound.c b/conbound.c
index d94f729..8183bc9 100644
--- a/conbound.c
+++ b/conbound.c
@@ -1,4 +1,5 @@
 #include <string.h>
+#include <math.h>
 #include <stdint.h>
 #include "watdefs.h"
 #include "afuncs.h"
@@ -377,7 +378,7 @@ int DLL_FUNC constell_from_ra_dec( const double ra_degrees_1875,
                                    const double dec_degrees_1875,
                                    char DLLPTR *constell_name)
 {
-   const int32_t ra = ((int32_t)(ra_degrees_1875 * 240.) + 864000) % 86400;
+   const int32_t ra = ((int32_t)floor( ra_degrees_1875 * 240.) + 864000) % 86400;
    const int16_t spd = (int16_t)( (dec_degrees_1875 + 90.) * 60.);
    int idx = -1, step = 512;
    int rval = -1;
-- 
2.43.0


From 77c42a241b364a1ba73f46d8bfa8197df1f27dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:52 +0000
Subject: [PATCH 081/187] fix: integrated refraction at the zenith was not a
 number

---
 refract4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refract4.cpp b/refract4.cpp
index 3b4abf4..075f309 100644
--- a/refract4.cpp
+++ b/refract4.cpp
@@ -143,6 +143,8 @@ static double total_refraction( const REFRACT *ref,
    const double integration_tolerance = .0001;
    const int max_recursion_depth = 20;
 
+   if( l1->z == l2->z)        /* object at zenith:  no bending at all, */
+      return( 0.);            /* and r is not determined by z */
    mid.z = (l1->z + l2->z) * .5;
    mid.r = (l1->r + l2->r) * .5;
    do
-- 
2.43.0


From 66f8735a8f669852d6f457d93f80477a26ccac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:52 +0000
Subject: [PATCH 082/187] fix: reverse integrated refraction without air was
 not a number

---
 refract4.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refract4.cpp b/refract4.cpp
index 075f309..95129dc 100644
--- a/refract4.cpp
+++ b/refract4.cpp
@@ -260,7 +260,8 @@ double DLL_FUNC reverse_integrated_refraction( const double latitude,
 // printf( "x2 = %lf; y2 = %lf\n", x2 * 180. / PI, y2 * 180. / PI);
    do
       {
-      const double x3 = x2 - (x1 - x2) * y2 / (y1 - y2);
+      const double x3 = (y1 == y2 ? x2 :
+                         x2 - (x1 - x2) * y2 / (y1 - y2));
 
       if( fabs( x3 - x2) < tolerance)
          return( x3 - refracted_alt);
-- 
2.43.0


From e0f52cef555a639008252fd03276d3309cad1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 083/187] fix: planet_radii() returned no radii if it was the
 first function to load cospar.txt

---
 cospar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.cpp b/cospar.cpp
index b5ffb1b..24380d4 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -122,7 +122,7 @@ static int get_cospar_data_from_text_file( int object_number,
          }
       cospar_text[line] = NULL;
       fclose( ifile);
-      if( !omega)        /* just loading coefficients;  not actually */
+      if( !is_retrograde)  /* just loading coefficients;  not actually */
          return( 0);       /* computing orientations quite yet (see    */
       }                    /* load_cospar_file( ) below)               */
    *is_retrograde = false;
-- 
2.43.0


From add84a66bf713a51147309acc5eeeec5844eac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 084/187] fix: the last object in cospar.txt was reported as
 unknown

---
 cospar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cospar.cpp b/cospar.cpp
index 24380d4..8398e7b 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -264,6 +264,8 @@ static int get_cospar_data_from_text_file( int object_number,
             }
          }
       }
+   if( curr_obj_from_file == object_number)     /* last object in file */
+      done = 1;
    if( !err)
       if( !done)    /* never did find the object... fill with  */
          {          /* semi-random values and signal an error: */
-- 
2.43.0


From 0c75a3cd06c359f6aa47d2288cee687fb71ec24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 085/187] fix: a non-ASCII minus sign cut off the motion of the
 right ascension of the pole of Mars

---
 cospar.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.txt b/cospar.txt
index c463622..eb85ced 100644
--- a/cospar.txt
+++ b/cospar.txt
@@ -141,7 +141,7 @@ Obj: 4002 # Deimos (s)
 
 Obj: 4 # Mars
    r=3396.19,3376.20
-   a0= 317.269202 − 0.10927547T + 0.419057 sin M11
+   a0= 317.269202 - 0.10927547T + 0.419057 sin M11
    d0= 54.432516 - 0.05827105T + 1.591274 cos M12
    W= 176.049863 + 350.891982443297d + 0.584542 sin M13   # (c) See 2018 Jul 17 comments
 
-- 
2.43.0


From 8b4ff2179062a2e7bd4703a659bd13a17d1d35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:05 +0000
Subject: [PATCH 086/187] fix: planet orientations and rotation rates were
 those of the previously loaded data or Delta-T

---
 cospar.cpp | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index 8398e7b..011d9d8 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -287,11 +287,14 @@ other than the working one.  They can use the following function to
 unload the COSPAR data (if any) and then direct that it be loaded from
 a specified file.          */
 
+static int n_loads = 0;    /* results computed before a load aren't re-used */
+
 int DLL_FUNC load_cospar_file( const char *filename)
 {
    const char *temp_name = cospar_filename;
    int rval, pass;
 
+   n_loads++;
    cospar_filename = filename;
    for( pass = 0; pass < (filename ? 2 : 1); pass++)
       rval = get_cospar_data_from_text_file( (pass ? 0 : FREE_INTERNAL_DATA),
@@ -304,10 +307,11 @@ double DLL_FUNC planet_rotation_rate( const int planet_no, const int system_no)
 {
    const double dummy_tdt = 2451545.;     /* not really used */
    bool is_retrograde;
-   static int prev_planet_no = -99, prev_system_no;
+   static int prev_planet_no = -99, prev_system_no, prev_n_loads;
    static double omega;
 
-   if( planet_no != prev_planet_no || system_no != prev_system_no)
+   if( planet_no != prev_planet_no || system_no != prev_system_no
+                           || n_loads != prev_n_loads)
       {
       const int rval = get_cospar_data_from_text_file( planet_no, system_no,
               dummy_tdt, NULL, NULL, &omega, NULL, &is_retrograde);
@@ -316,6 +320,7 @@ double DLL_FUNC planet_rotation_rate( const int planet_no, const int system_no)
          omega = 0.;
       prev_planet_no = planet_no;
       prev_system_no = system_no;
+      prev_n_loads = n_loads;
       }
    return( omega);
 }
@@ -351,23 +356,13 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
 {
    static int prev_planet_no = NO_OBJECT_SELECTED;
    static int prev_system_no = NO_OBJECT_SELECTED, prev_rval = 0;
-   static double prev_jd = -1.;
+   static int prev_n_loads;
+   static double prev_tdt = -1.;
    static double prev_matrix[9];
    int i, rval;
    bool is_retrograde;
-   double pole_ra, pole_dec, omega, tdt;
-
-   if( planet_no == prev_planet_no && system_no == prev_system_no
-                           && jd == prev_jd)
-      {
-      memcpy( matrix, prev_matrix, 9 * sizeof( double));
-      return( prev_rval);
-      }
-
-   prev_planet_no = planet_no;
-   prev_system_no = system_no;
-   prev_jd = jd;
-   tdt = jd + td_minus_ut( jd) / seconds_per_day;
+   double pole_ra = 0., pole_dec = 0., omega = 0.;
+   const double tdt = jd + td_minus_ut( jd) / seconds_per_day;
 
    if( planet_no == 3)        /* handle earth with "normal" precession: */
       {
@@ -380,11 +375,20 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
                /* it to point at E90... go figure.       */
       for( i = 3; i < 6; i++)
          matrix[i] = -matrix[i];
-      memcpy( prev_matrix, matrix, 9 * sizeof( double));
-      prev_rval = 0;
       return( 0);
       }
 
+   if( planet_no == prev_planet_no && system_no == prev_system_no
+                     && tdt == prev_tdt && n_loads == prev_n_loads)
+      {
+      memcpy( matrix, prev_matrix, 9 * sizeof( double));
+      return( prev_rval);
+      }
+
+   prev_planet_no = planet_no;
+   prev_system_no = system_no;
+   prev_n_loads = n_loads;
+   prev_tdt = tdt;
    rval = get_cospar_data_from_text_file( planet_no, system_no,
               tdt, &pole_ra, &pole_dec, &omega, NULL, &is_retrograde);
    pole_ra *= PI / 180.;
-- 
2.43.0


From 8a2c4e7cf911ca971a836500722841fba4e48ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:32 +0000
Subject: [PATCH 087/187] fix: compute_planet() aborted for planet 9,
 documented as Pluto

---
 getplane.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/getplane.cpp b/getplane.cpp
index d0a6195..c581f33 100644
--- a/getplane.cpp
+++ b/getplane.cpp
@@ -50,6 +50,28 @@ int DLL_FUNC compute_planet( const char FAR *vsop_data, const int planet_no,
    const double obliq_2000 = 23.4392911 * PI / 180.;
 
             /* first,  compute polar heliocentric in eclip of date */
+   if( planet_no == 9)     /* Pluto's theory gives J2000 ecliptic coords : */
+      {                    /* work back from those to the ones 'of date'    */
+      double loc[3];
+
+      calc_pluto_loc( vsop_data, loc, t_c, 0L);
+      ovals[12] = cos( loc[0]) * cos( loc[1]) * loc[2];
+      ovals[13] = sin( loc[0]) * cos( loc[1]) * loc[2];
+      ovals[14] =                sin( loc[1]) * loc[2];
+      FMEMCPY( ovals + 9, ovals + 12, 3 * sizeof( double));
+      rotate_vector( ovals + 9, obliq_2000, 0);
+      setup_precession( matrix, 2000. + t_c * 100., 2000.);
+      deprecess_vector( matrix, ovals + 9, ovals + 6);
+      FMEMCPY( ovals + 3, ovals + 6, 3 * sizeof( double));
+      rotate_vector( ovals + 3, -obliquit, 0);
+      ovals[0] = atan2( ovals[4], ovals[3]);
+      if( ovals[0] < 0.)
+         ovals[0] += PI + PI;
+      ovals[1] = atan2( ovals[5],
+                  sqrt( ovals[3] * ovals[3] + ovals[4] * ovals[4]));
+      ovals[2] = loc[2];
+      return( 0);
+      }
    if( planet_no != 10)
       {
       lon = calc_vsop_loc( vsop_data, planet_no, 0, t_c, 0.);
-- 
2.43.0


From c0b8c3b1c78ab5aecc5fe757f4dfd6b5569b02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:32 +0000
Subject: [PATCH 088/187] fix: each lunar series cut off by a precision limit
 leaked its buffer

---
 elp82dat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elp82dat.cpp b/elp82dat.cpp
index 3ef9df5..734fffd 100644
--- a/elp82dat.cpp
+++ b/elp82dat.cpp
@@ -189,7 +189,7 @@ static double add_in_series( FILE *ifile, const int series_no,
             }
       amplitude = *(int32_t *)tptr;
       if( amplitude < lprec && amplitude > -lprec)
-         return( rval * 1.e-5);
+         break;
       switch( series_type)
          {
          case 0:        /* main problem */
-- 
2.43.0


From 1b4d9a539e895f6225376fbc811620a0987a4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:32 +0000
Subject: [PATCH 089/187] fix: big_vsop reused one file's header (or a partly
 read one) for another file

---
 big_vsop.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index f99adcb..204f5ca 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -91,14 +91,12 @@ the final series actually ends.)
    Since each header entry is a short int,  we're looking at 290 bytes.
 
    In a possibly misguided effort to save space (well,  it _did_ make
-lots of sense back in 1993!),  I store the header data needed for
-one particular planet in RAM at a given time.  If someone asks for
-a "new planet" (in big_vsop.cpp,  'if( curr_planet != planet)'),
-then we dig through 'big_vsop.bin' for the required header data
-and store it in a static array.  That requirement is for nineteen
+lots of sense back in 1993!),  I read only the header data needed
+for the planet in question.  (It's re-read each time:  the next call
+may use a different file.)  That requirement is for nineteen
 short integers:  there are three values to be computed (lat/lon/r)
 and six series for each of them (1, t, t^2, ...t^5),  and we need
-to know where the last of them ends.  So the static array 'cache'
+to know where the last of them ends.  So the array 'cache'
 is dimensioned for 19 shorts.
 
    We then use that data stored in 'cache' to go forth and grab
@@ -121,8 +119,7 @@ in 'big_vsop.cpp' reads as
 int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
                       double *ovals, double t, const double prec0)
 {
-   static int16_t cache[19];
-   static int curr_planet = 99;
+   int16_t cache[19];
    int close_it = 0, value;
 
    ovals[0] = ovals[1] = ovals[2] = 0.;
@@ -135,13 +132,9 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
       }
    if( !ifile)
       return( -1);                              /* ...then give up. */
-   if( curr_planet != planet)
-      {                             /* reload the cache */
-      fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
-      if( !fread( cache, 3 * 6 + 1, sizeof( int16_t), ifile))
-         return( -2);
-      curr_planet = planet;
-      }
+   fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
+   if( fread( cache, sizeof( int16_t), 3 * 6 + 1, ifile) != 3 * 6 + 1)
+      return( -2);
 
    t /= 10.;         /* convert to julian millennia */
    for( value = 0; value < 3; value++)
-- 
2.43.0


From bac3ed3608c569f7bc5a1f41e6ce98a85c8ef54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:32 +0000
Subject: [PATCH 090/187] fix: big_vsop left its file open after a read error,
 and took part of a term for a whole one

---
 big_vsop.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/big_vsop.cpp b/big_vsop.cpp
index 204f5ca..387cd3c 100644
--- a/big_vsop.cpp
+++ b/big_vsop.cpp
@@ -134,7 +134,11 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
       return( -1);                              /* ...then give up. */
    fseek( ifile, (size_t)(planet - 1) * 6L * 3L * sizeof( int16_t), SEEK_SET);
    if( fread( cache, sizeof( int16_t), 3 * 6 + 1, ifile) != 3 * 6 + 1)
+      {
+      if( close_it)
+         fclose( ifile);
       return( -2);
+      }
 
    t /= 10.;         /* convert to julian millennia */
    for( value = 0; value < 3; value++)
@@ -154,8 +158,12 @@ int DLL_FUNC calc_big_vsop_loc( FILE *ifile, const int planet,
          sum = 0.;
          for( j = loc[1] - loc[0]; j; j--)
             {
-            if( !fread( idata, 3, sizeof( double), ifile))
+            if( fread( idata, sizeof( double), 3, ifile) != 3)
+               {
+               if( close_it)
+                  fclose( ifile);
                return( -3);
+               }
             if( idata[0] > prec || idata[0] < -prec)
                {
                double argument = idata[1] + idata[2] * t;
-- 
2.43.0


From 4876f027ca231f28f9ac4409718c66fd1c796d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:50 +0000
Subject: [PATCH 091/187] fix: PS1996 series were built from uninitialised
 memory when the file was cut short

---
 de_plan.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/de_plan.cpp b/de_plan.cpp
index 613f197..c4c216b 100644
--- a/de_plan.cpp
+++ b/de_plan.cpp
@@ -130,7 +130,7 @@ above unpack_six_doubles() function.
 
 void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
 {
-   int32_t offset;
+   int32_t offset = 0;
    long jump = 0;
    int read_error = 0;
    int16_t block_sizes[30];
@@ -149,13 +149,13 @@ void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
       }
 
    fseek( ifile, (long)(planet_no - 1) * (long)sizeof( int32_t), SEEK_SET);
-   if( !fread( &offset, 1, sizeof( int32_t), ifile))
+   if( !fread( &offset, sizeof( int32_t), 1, ifile))
       read_error = -1;
    fseek( ifile, offset, SEEK_SET);
    if( !fread( &header, sizeof( POISSON_HEADER), 1, ifile))
       read_error = -1;
-   block = (int)floor( (jd - header.tzero) / header.dt);
-   if( block < 0 || block >= header.n_blocks || read_error)
+   block = (read_error ? -1 : (int)floor( (jd - header.tzero) / header.dt));
+   if( block < 0 || block >= header.n_blocks)
       {
       if( close_file)
          fclose( ifile);
@@ -179,10 +179,15 @@ void * DLL_FUNC load_ps1996_series( FILE *ifile, double jd, int planet_no)
       }
    p.fqs = (double *)( rval + 1);
    p.terms = p.fqs + header.total_fqs;
-   if( !fread( p.fqs, (size_t)header.total_fqs, sizeof( double), ifile))
+   if( fread( p.fqs, sizeof( double), (size_t)header.total_fqs, ifile)
+                        != (size_t)header.total_fqs)
       read_error = -3;
-   if( !fread( block_sizes, (size_t)header.n_blocks, sizeof( int16_t), ifile))
+   if( fread( block_sizes, sizeof( int16_t), (size_t)header.n_blocks, ifile)
+                        != (size_t)header.n_blocks)
+      {
       read_error = -4;
+      memset( block_sizes, 0, sizeof( block_sizes));
+      }
    for( i = 0; i < block; i++)
       jump += (long) block_sizes[i];
    fseek( ifile, jump, SEEK_CUR);
-- 
2.43.0


From a039aaa1eea373669c4e788476b8ead59db4608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 092/187] fix: three Galilean satellite terms had a wrong sign
 or argument

Io's latitude term in psi is negative, as for the other three satellites;
its -387e-7 radius term goes with the 445e-5 degree longitude term, both in
pi3;  and Ganymede's last latitude term is in +psi (as it stood,  it wasn't
even independent of the zero point of longitude).
---
 jsats.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsats.cpp b/jsats.cpp
index 6684c3b..3752796 100644
--- a/jsats.cpp
+++ b/jsats.cpp
@@ -160,10 +160,10 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
       tan_lat[1] = 6393.e-7 * sin( lon[1] - ome1)
              + 1825.e-7 * sin( lon[1] - ome2)
              +  329.e-7 * sin( lon[1] - ome3)
-             +  311.e-7 * sin( lon[1] - psi)
+             -  311.e-7 * sin( lon[1] - psi)
              +   93.e-7 * sin( lon[1] - ome4);
       rad[1] = -41339.e-7 * cos( 2. * (l1 - l2))
-               -  387.e-7 * cos( l1 - pi1)
+               -  387.e-7 * cos( l1 - pi3)
                -  214.e-7 * cos( l1 - pi4)
                +  170.e-7 * cos( l1 - l2)
                -  131.e-7 * cos( 4. * (l1 - l2))
@@ -257,7 +257,7 @@ int DLL_FUNC calc_jsat_loc( const double jd, double DLLPTR *jsats,
                + 321.e-7 * sin( lon[3] + psi - twice_per_plus_g)
                +  51.e-7 * sin( lon[3] - psi + g)
                -  45.e-7 * sin( lon[3] - psi - g)
-               -  45.e-7 * sin( lon[3] - psi - 2. * PER);
+               -  45.e-7 * sin( lon[3] + psi - 2. * PER);
       rad[3] = -14388.e-7 * cos( l3 - pi3)
                 -7919.e-7 * cos( l3 - pi4)
                 +6342.e-7 * cos( l2 - l3)
-- 
2.43.0


From db490214339f7e8df674d18d66908347f6f823e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 093/187] fix: Titan was given Rhea's inclination, and its
 perihelion perturbation was scaled by e

Titan's own gamma0 (.2960 degrees) was in the table,  but the sine and
tangent used were for Rhea's .3469.  The perturbation in longitude of
perihelion is beta * (sin 2g - ...),  without the eccentricity (which is
in the matching perturbation of the eccentricity).
---
 ssats.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index b4437de..69207a8 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -245,18 +245,20 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          const double Incl1_plus_dIncl = INCL0 - .6303 * PI / 180.;
          const double g0 = 103.199 * PI / 180.;
          const double beta = .3752 * PI / 180.;
+         const double sin_titan_gamma0 = .0051662;
+         const double sin_titan_gamma0_tan_half_incl = .00129197;
 
          double big_N = elems->Omega, g;
          double perturb_Omega, perturb_incl;
 
-         elems->lambda += sin_gamma0_tan_half_incl * sin( big_N);
-         perturb_Omega = sin_gamma0 * sin( big_N);
+         elems->lambda += sin_titan_gamma0_tan_half_incl * sin( big_N);
+         perturb_Omega = sin_titan_gamma0 * sin( big_N);
          elems->Omega = Omega1_plus_dOmega + perturb_Omega / sin_incl1;
-         perturb_incl = sin_gamma0 * cos( big_N);
+         perturb_incl = sin_titan_gamma0 * cos( big_N);
          elems->gamma = Incl1_plus_dIncl + perturb_incl;
          g = elems->omega - elems->Omega - 4.6 * PI / 180.;
          elems->ecc += beta * elems->ecc * (cos( g + g) - cos( g0 + g0));
-         elems->omega += beta * elems->ecc * (sin( g + g) - sin( g0 + g0));
+         elems->omega += beta * (sin( g + g) - sin( g0 + g0));
          }
          break;
       case HYPERION:
-- 
2.43.0


From 0a0f63caa99835f09810ecb452f3ad30e5d0ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:47 +0000
Subject: [PATCH 094/187] fix: Hyperion's node and inclination offsets were
 exchanged, and its distance terms scaled away

The -.747 degree offset belongs to the inclination and the -.13 to the node.
The C_a_* coefficients are already in AU.  Meeus' example for 1999 Sep 18
(Astronomical Algorithms,  ch. 46) now comes out to within .007 radii of
Saturn;  it used to be off by .22.
---
 ssats.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ssats.cpp b/ssats.cpp
index 69207a8..983993b 100644
--- a/ssats.cpp
+++ b/ssats.cpp
@@ -302,12 +302,12 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          const double sin_hy_gamma0 =             .011231;
 
                                        /* from (45), p 59 */
-         const double Omega1_plus_dOmega =    ASC_NODE0 - .747 * PI / 180.;
-         const double Incl1_plus_dIncl =          INCL0 - .13 * PI / 180.;
+         const double Omega1_plus_dOmega =    ASC_NODE0 - .13 * PI / 180.;
+         const double Incl1_plus_dIncl =          INCL0 - .747 * PI / 180.;
 /*       const double Omega1_plus_dOmega =    ASC_NODE0 - .0078 * PI / 180.; */
 /*       const double Incl1_plus_dIncl =          INCL0 - .0455 * PI / 180.; */
-         const double sin_Incl1_plus_dIncl =        0.468727;
-         const double tan_half_Incl1_plus_dIncl =   0.248880;
+         const double sin_Incl1_plus_dIncl =        0.459184;
+         const double tan_half_Incl1_plus_dIncl =   0.243175;
 
                                        /* from (44), p 59 */
          const double big_T = (elems->jd - 2442000.5) / 365.25;
@@ -365,13 +365,13 @@ static int set_ssat_elems( SAT_ELEMS DLLPTR *elems, ELEMENTS DLLPTR *orbit)
          elems->omega += C_omega_2zeta * arg;
 
          arg = cos( tau);
-         elems->semimaj += C_a_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_tau * arg;
          elems->ecc += C_e_tau * arg;
          arg = cos( zeta + tau);
-         elems->semimaj += C_a_zeta_plus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_plus_tau * arg;
          elems->ecc += C_e_zeta_plus_tau * arg;
          arg = cos( zeta - tau);
-         elems->semimaj += C_a_zeta_minus_tau * arg * SECONDS_TO_AU;
+         elems->semimaj += C_a_zeta_minus_tau * arg;
          elems->ecc += C_e_zeta_minus_tau * arg
                       + C_e_zeta * cos( zeta)
                       + C_e_2zeta * cos( zeta + zeta)
-- 
2.43.0


From edca79fa856859c7e8a7b1d367e35f2c930c9b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:46 +0000
Subject: [PATCH 095/187] fix: lunar transits in the tropics and the southern
 hemisphere were found wrongly

---
 lun_tran.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lun_tran.cpp b/lun_tran.cpp
index 85f5c0d..5b4049b 100644
--- a/lun_tran.cpp
+++ b/lun_tran.cpp
@@ -55,7 +55,7 @@ static double look_for_transit_time( const int planet_no,
       fill_planet_data( &pdata, planet_no, jd,
                           observer_lat, observer_lon, vsop_data);
 
-      delta = atan2( pdata.altaz_loc[1], pdata.altaz_loc[0]);
+      delta = pdata.hour_angle;
       if( !real_transit)
          delta += pi;
       while( delta < -pi)
@@ -64,7 +64,6 @@ static double look_for_transit_time( const int planet_no,
          delta -= pi + pi;
       if( planet_no == 10)       /* moon moves a little faster */
          delta *= 30.5 / 29.5;
-      delta *= sqrt( 1. - pdata.altaz_loc[2] * pdata.altaz_loc[2]);
       jd += delta / (2. * pi);
       }
       while( fabs( delta) > .0001 && iterations--);
-- 
2.43.0


From a249f78a5e7cba950344d84073b05d62c4963f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:46 +0000
Subject: [PATCH 096/187] fix: a date such as '2000-3 may d' put
 get_time_from_string( ) in an endless loop

---
 get_time.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index 8641ffe..5700741 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -150,17 +150,21 @@ static inline long double collect_time_offset( char *istr)
          while( len >= 0 && istr[len] != '-' && istr[len] != '+')
             len--;
          if( len >= 0)         /* we found something... */
+            {
             if( sscanf( istr + len, "%Lf %c%n", &rval, &unused_char,
-                                    &bytes_scanned) == 2)
-               if( !istr[len + bytes_scanned])
-                  {
-                  for( i = 0; symbols[i]; i++)
-                     if( ending_char == symbols[i])
-                        rval *= scales[i];
-                  while( len && istr[len - 1] == ' ')
-                     len--;
-                  istr[len] = '\0';
-                  }
+                                    &bytes_scanned) == 2
+                        && !istr[len + bytes_scanned])
+               {
+               for( i = 0; symbols[i]; i++)
+                  if( ending_char == symbols[i])
+                     rval *= scales[i];
+               while( len && istr[len - 1] == ' ')
+                  len--;
+               istr[len] = '\0';
+               }
+            else              /* ...but it wasn't an offset */
+               rval = 0.;
+            }
          }
       else if( *istr == '-' || *istr == '+')  /* just add/subtract N days: */
          {
-- 
2.43.0


From e1f3cbe6f7aa5e4006821127b1f0f77dba84ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:21 +0000
Subject: [PATCH 097/187] fix: 'transit' lost everything after a conjunction
 found to within rounding

---
 transit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transit.cpp b/transit.cpp
index 65d6686..82460e1 100644
--- a/transit.cpp
+++ b/transit.cpp
@@ -233,6 +233,8 @@ int main( const int argc, const char **argv)
 
          lon_lat_diff( buff, t, planet1, planet2, &d_lon1, NULL, NULL);
          time_diff = synodic * d_lon1 / (2. * PI);
+         if( fabs( time_diff) < .01)      /* need a usable time baseline */
+            time_diff = .01;
          lon_lat_diff( buff, t + time_diff, planet1, planet2, &d_lon2, &d_lat2, NULL);
                /* now calculate closest approach time and dist... */
 
-- 
2.43.0


From 369085be61b5753a25ac244b96fd2e69fc0d24ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 098/187] fix: get_time_from_string( ) could write past its
 buffer for text just under 80 bytes

---
 get_time.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/get_time.cpp b/get_time.cpp
index 5700741..c0fd1c3 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -436,12 +436,18 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
              /* 'Q' is an exception to avoid '1q' becoming '1 q'.         */
    *str = (char)tolower( *time_str++);
    i = 1;
-   while( (size_t)i < sizeof( buff) - 1 && *time_str)
+   while( *time_str)
       {
       if( (isalpha( *time_str) && isdigit( time_str[-1]))
                          || (isdigit( *time_str) && isalpha( time_str[-1])))
          if( *time_str != 'q' && *time_str != 'Q')
             str[i++] = ' ';
+      if( (size_t)i >= sizeof( buff) - 1)
+         {                 /* spaces added above left no room */
+         if( is_ut)
+            *is_ut = -3;
+         return( initial_t2k);
+         }
       str[i++] = (char)tolower( *time_str++);
       }
    str[i] = '\0';
-- 
2.43.0


From 9fcbdb840a7d32367eaa38b614990aa0290fecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 099/187] fix: absurdly large years,  days,  etc. overflowed in
 get_time_from_string( )

---
 get_time.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/get_time.cpp b/get_time.cpp
index c0fd1c3..6f79800 100644
--- a/get_time.cpp
+++ b/get_time.cpp
@@ -420,6 +420,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
    char symbol = 0;
    char *str = buff;
    const long double jan_1_1970 = 2440587.5;      /* starting point for UNIX time */
+   const long double max_field = 1.e+9;     /* larger years,  etc. are nonsense */
 
    if( is_ut)
       *is_ut = 0;
@@ -592,7 +593,7 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                if( hour == 12)
                   hour = 0;
             if( am_pm_indicator == AM_PM_SET_TO_PM)
-               if( hour != 12)
+               if( hour != 12 && hour < (int)max_field)
                   hour += 12;
             }
          else      /* :MM:SS means "leave the hour unchanged" */
@@ -695,6 +696,13 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
                      n_fields_found = 3;
                      }
             }
+         for( i = 0; i < 3; i++)
+            if( !(fabsl( ivals[i]) < max_field))
+               {
+               if( is_ut)
+                  *is_ut = -7;
+               return( initial_t2k);
+               }
                      /* if one of the fields is negative, or if it's    */
                      /* greater than 32 and is the largest entry,  it   */
                      /* can be assumed to be the year:                  */
@@ -893,13 +901,19 @@ long double DLL_FUNC get_time_from_stringl( long double initial_t2k,
 //       break;
       }
 
+   if( !(fabsl( dday) < max_field))
+      {
+      if( is_ut)
+         *is_ut = -7;
+      return( initial_t2k);
+      }
    if( is_bc)
       year = 1 - year;
    iday = (int)dday;
    dday -= (long double)iday;
    int_rval = dmy_to_day( iday, month, year, calendar) - 2451545;
    rval = (long double)int_rval + dday -.5 +
-                 (long double)( hour * minutes_per_hour + minute) / minutes_per_day
+                 ((long double)hour * minutes_per_hour + minute) / minutes_per_day
 /*            (long double)hour / hours_per_day + (long double)minute / minutes_per_day */
                  + sec / seconds_per_day;
    return( rval + offset);
-- 
2.43.0


From 6053f7145ff8e13bf87a66ac715b07cd9af91034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 100/187] fix: a stray control character in ADES data put
 xlate_ades2mpc( ) in an endless loop

---
 ades2mpc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 6d31285..84c610e 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1245,7 +1245,7 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
 
          while( tptr[len] && tptr[len] != '<')
             len++;
-         while( len && (unsigned char)tptr[len - 1] <= ' ')
+         while( len > 1 && (unsigned char)tptr[len - 1] <= ' ')
             len--;
          rval = process_ades_tag( obuff, cptr, itag, tptr, len);
          tptr += len;
-- 
2.43.0


From ac74ecb94af50936f79c2cca245230b22bcc0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 101/187] fix: decipher_var_desig( ) overflowed for 'V'
 followed by an absurdly large number

---
 miscell.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index f8a59c4..383d055 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -253,7 +253,12 @@ int DLL_FUNC decipher_var_desig( const char DLLPTR *desig)
          break;
       default:
          if( first == 'V')
-            rval = atoi( desig + 1) - 1;
+            {
+            const long number = strtol( desig + 1, NULL, 10);
+
+            if( number > INT_MIN && number < INT_MAX)
+               rval = (int)number - 1;
+            }
          break;
       }
    rval++;
-- 
2.43.0


From 1e1713b401d08e7294ebbc941b4bc3e3a0f5aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:38 +0000
Subject: [PATCH 102/187] fix: a malformed Delta-T definition string was read
 beyond its end

---
 delta_t.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index 96f6570..a425528 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -120,10 +120,10 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
       if( tptr == dt_string || tptr[-1] == ';')
          {
          double year1, year2;
-         int bytes_read;
+         int bytes_read = 0;
 
          if( sscanf( tptr, "%lf,%lf:%n", &year1, &year2, &bytes_read) == 2
-                  && year >= year1 && year < year2)
+                  && bytes_read && year >= year1 && year < year2)
             {
             double offset = 2000., x, power = 1., coeff;
 
@@ -131,6 +131,7 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
             if( *tptr == 'o')
                {
                tptr++;
+               bytes_read = 0;
                sscanf( tptr, "%lf,%n", &offset, &bytes_read);
                tptr += bytes_read;
                }
@@ -138,7 +139,7 @@ static int evaluate_delta_t_string( const double year, double *delta_t,
             *delta_t = 0.;
             rval = 0;
             while( tptr[-1] != ';' && *tptr
-                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read))
+                     && sscanf( tptr, "%lf%n", &coeff, &bytes_read) == 1)
                {
                *delta_t += power * coeff;
                power *= x;
-- 
2.43.0


From bbc9edbda2c4fcd6d2473fcbdad77a9b7530c541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:38 +0000
Subject: [PATCH 103/187] fix: a damaged 'cospar.txt' could cause reads outside
 the text, or an endless loop

---
 cospar.cpp  | 35 ++++++++++++++++++++++++-----------
 miscell.cpp |  1 +
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index 011d9d8..8c14248 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -59,6 +59,7 @@ static int get_cospar_data_from_text_file( int object_number,
    const double d = (jde - J2000);
    const double t_cen = d / 36525.;
    static char **cospar_text = NULL;
+   static int n_text_lines;
    char buff[300];
    char planet = 0;
    int line, angular_coeffs_line = 0;
@@ -121,6 +122,7 @@ static int get_cospar_data_from_text_file( int object_number,
             }
          }
       cospar_text[line] = NULL;
+      n_text_lines = line;
       fclose( ifile);
       if( !is_retrograde)  /* just loading coefficients;  not actually */
          return( 0);       /* computing orientations quite yet (see    */
@@ -132,7 +134,7 @@ static int get_cospar_data_from_text_file( int object_number,
       {
       char *tptr = cospar_text[line];
 
-      if( *tptr == 'R')        /* "Remap:" */
+      if( !strncmp( tptr, "Remap:", 6))
          if( object_number > 9 && object_number < 1000) /* remap, e.g, 10 to 3001 */
              {                                          /* or 28 to 4001.  Only   */
              int loc = 6, bytes_read, idx1, idx2;   /* needed for idxs 10 to 999. */
@@ -144,14 +146,14 @@ static int get_cospar_data_from_text_file( int object_number,
                 loc += bytes_read;
                 }
              }
-      if( *tptr == 'P')   /* "Planet: "*/
+      if( !strncmp( tptr, "Planet:", 7))
          {
          planet = tptr[7];
          if( curr_obj_from_file == object_number)
             done = 1;
          curr_obj_from_file = PLANET_SELECTED;
          }
-      else if( *tptr == 'O')    /* "Object:" */
+      else if( !strncmp( tptr, "Obj:", 4))
          {
          if( curr_obj_from_file == object_number)
             done = 1;
@@ -165,7 +167,7 @@ static int get_cospar_data_from_text_file( int object_number,
          {
          double *oval = NULL;
 
-         if( *tptr == 'r')
+         if( *tptr == 'r' && tptr[1])
             {
             if( radii)
                sscanf( tptr + 2, "%lf,%lf,%lf", radii, radii + 1, radii + 2);
@@ -182,9 +184,10 @@ static int get_cospar_data_from_text_file( int object_number,
                }
          if( oval)
             {
-            while( *tptr != '=')
+            while( *tptr && *tptr != '=')
+               tptr++;
+            if( *tptr)
                tptr++;
-            tptr++;
             *oval = atof( tptr);
             if( *tptr == '-')     /* skip leading neg sign */
                tptr++;
@@ -193,10 +196,16 @@ static int get_cospar_data_from_text_file( int object_number,
                   tptr++;        /* just skip on over... */
                else
                   {
+                  char *coeff_ptr = tptr;
                   double coeff = strtod( tptr, &tptr);
 
                   assert( tptr);
-                  if( *tptr == 'd')
+                  if( tptr == coeff_ptr)     /* not a number after all */
+                     {
+                     err = -6;
+                     tptr++;
+                     }
+                  else if( *tptr == 'd')
                      {
                      if( tptr[1] == '2')
                         coeff *= d;
@@ -217,6 +226,8 @@ static int get_cospar_data_from_text_file( int object_number,
                         *is_retrograde = true;
                      coeff *= t_cen;
                      }
+                  else if( strlen( tptr) < 5)      /* malformed term */
+                     err = -4;
                   else
                      {
                      int idx, multiplier = 1;
@@ -234,10 +245,12 @@ static int get_cospar_data_from_text_file( int object_number,
                            err = -4;
                         }
                      assert( angular_coeffs_line);
-                     ang_ptr = cospar_text[angular_coeffs_line + idx] + 1;
-                     while( ang_ptr[-1] != '=')
-                        ang_ptr++;
-
+                     if( idx < 1 || idx >= n_text_lines - angular_coeffs_line)
+                        return( -4);               /* no such angle */
+                     ang_ptr = strchr( cospar_text[angular_coeffs_line + idx], '=');
+                     if( !ang_ptr)
+                        return( -4);
+                     ang_ptr++;
                      constant_term = strtod( ang_ptr, &ang_ptr);
                      assert( ang_ptr);
                      linear = strtod( ang_ptr, &ang_ptr);
diff --git a/miscell.cpp b/miscell.cpp
index 383d055..3e7c8bc 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -22,6 +22,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 
 #include <stdio.h>
 #include <math.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <assert.h>
 #include <string.h>
-- 
2.43.0


From 7c95f73177035827a3e073e2cfa924bc65d71bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:49 +0000
Subject: [PATCH 104/187] fix: damaged site and region lines overflowed, or
 hung extract_region_data_for_lat_lon( )

---
 mpc_code.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index d929e13..563b3d8 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -301,7 +301,7 @@ and return 19 + 13/60 + 33.1/3600 = 19.22586111.   */
 
 static double convert_base_60_to_decimal( const double ival)
 {
-   const int secs = (int)ival;
+   const int64_t secs = (fabs( ival) < 1.e+15 ? (int64_t)ival : 0);
    const double rval = (double)( secs / 10000)
                      + (double)((secs / 100) % 100) / 60.
                      + (double)( secs % 100) / 3600.
@@ -421,8 +421,14 @@ int extract_region_data_for_lat_lon( FILE *ifile, char *buff,
    while( !*buff && fgets( tbuff, sizeof( tbuff), ifile))
       if( *tbuff != '#')
          {
-         double d_lon1 = quick_atof( tbuff)      - lon_in_degrees;
-         double d_lon2 = quick_atof( tbuff + 20) - lon_in_degrees;
+         double d_lon1, d_lon2;
+
+         if( strlen( tbuff) < 40)      /* line is too short to hold a region */
+            continue;
+         d_lon1 = quick_atof( tbuff)      - lon_in_degrees;
+         d_lon2 = quick_atof( tbuff + 20) - lon_in_degrees;
+         if( fabs( d_lon1) > 1.e+6 || fabs( d_lon2) > 1.e+6)
+            continue;                  /* not a longitude */
 
          while( d_lon1 > 180.)
             d_lon1 -= 360.;
-- 
2.43.0


From 1695ab9df4ee8c600184ec585e870201a53bf3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:13 +0000
Subject: [PATCH 105/187] fix: an empty ADES <optical> element gave unset
 output,  over and over

---
 ades2mpc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 84c610e..8b7362a 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1251,11 +1251,16 @@ int xlate_ades2mpc( void *context, char *obuff, const char *buff)
          tptr += len;
          }
       else
-         return rval;
+         break;
       tptr = skip_whitespace( tptr);
       }
    if( cptr->getting_lines)
-      get_a_line( obuff, obuff_size, cptr);
+      {                 /* an empty <optical> element yields no output */
+      const int got_line = get_a_line( obuff, obuff_size, cptr);
+
+      if( rval >= 0)
+         rval = got_line;
+      }
    else if( rval)       /* line is done with;  don't look at it again */
       cptr->prev_line_passed_through = 1;
    if( orig_obuff)
-- 
2.43.0


From 0bf7fd2369e71f2030d8d549de9a34ce42659c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:13 +0000
Subject: [PATCH 106/187] fix: orientation of an object with an absurdly large
 number overflowed

---
 cospar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.cpp b/cospar.cpp
index 8c14248..621a3b3 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -283,7 +283,7 @@ static int get_cospar_data_from_text_file( int object_number,
       if( !done)    /* never did find the object... fill with  */
          {          /* semi-random values and signal an error: */
          if( pole_ra && pole_dec)
-            *pole_ra = *pole_dec = (double)( object_number * 20);
+            *pole_ra = *pole_dec = (double)object_number * 20.;
          if( omega)
             *omega = d * 360. / 1.3;   /* rotation once every 1.3 days */
          err = -1;
-- 
2.43.0


From cb4635796b80b064d218a38b725f6e505659a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 107/187] fix: form data with lower-case hex escapes was
 rejected,  and a bad escape in a value gave unterminated text

---
 cgi_func.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 6d95d16..bb1e3b2 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -129,8 +129,13 @@ static int get_urlencoded_piece( const char **idata,
                c += c1 - '0';
             else if( c1 >= 'A' && c1 <= 'F')
                c += c1 - 'A' + 10;
+            else if( c1 >= 'a' && c1 <= 'f')
+               c += c1 - 'a' + 10;
             else                    /* wasn't an hex digit: */
-               return( -1);         /* not supposed to happen */
+               {                    /* not supposed to happen */
+               *buff = '\0';
+               return( -1);
+               }
             }
          }
       *buff++ = (char)c;
@@ -151,6 +156,8 @@ int get_urlencoded_form_data( const char **idata,
    if( get_urlencoded_piece( idata, field, max_field, '=') != '=')
       return( -1);
    c = get_urlencoded_piece( idata, buff, max_buff, '&');
+   if( c == -1)
+      return( -1);
    return( c != '&' && c > 13);
 }
 
-- 
2.43.0


From eb72defa68772397d9b88bec6a097d7cf49e1e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 108/187] fix: long field names in multipart forms overran the
 caller's 30-byte buffer;  short lines were compared past their ends

---
 cgi_func.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index bb1e3b2..57b9aae 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -21,6 +21,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #include <stdlib.h>
 #include "cgi_func.h"
 #include "watdefs.h"
+#include "stringex.h"
 
 /* Server-based versions of Find_Orb,  sat_id,  and astcheck (see
 'fo_serve.cpp',  'sat_id2.cpp',  cgicheck.cpp' respectively) all use
@@ -168,6 +169,7 @@ int get_multipart_form_data( const char *boundary, char *field,
 {
    char *tptr, *endptr;
    size_t bytes_read = 0, blen = 0;
+   const size_t max_field = 30;
 
    if( filename)
       *filename = '\0';
@@ -182,7 +184,7 @@ int get_multipart_form_data( const char *boundary, char *field,
       if( strlen( buff) == max_len - 1)
          return( OVERRUN);
       *endptr = '\0';
-      strcpy( field, tptr + 6);
+      strlcpy( field, tptr + 6, max_field);
       if( filename && filename_ptr
              && (endptr = strchr( filename_ptr + 10, '"')) != NULL)
          {
@@ -195,7 +197,7 @@ int get_multipart_form_data( const char *boundary, char *field,
             return( OVERRUN);
          while( bytes_read < max_len - 1 &&
                  fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
-                 && memcmp( buff + bytes_read, boundary, blen))
+                 && strncmp( buff + bytes_read, boundary, blen))
             bytes_read += strlen( buff + bytes_read);
          }
       }
@@ -257,9 +259,9 @@ int initialize_cgi_reading( void)
 
       if( !eptr)
          return( -1);
-      if( !memcmp( eptr, "application/x-www-form-urlencoded", 33))
+      if( !strncmp( eptr, "application/x-www-form-urlencoded", 33))
          method = METHOD_PUT_URL;
-      else if( !memcmp( eptr, "multipart/form-data;", 20))
+      else if( !strncmp( eptr, "multipart/form-data;", 20))
          method = METHOD_PUT_MULTIPART;
       else
          return( -2);
-- 
2.43.0


From 7fde22cd83b393e2832827b779c994c7f95267f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:47 +0000
Subject: [PATCH 109/187] fix: an uploaded file's data began with a part of its
 headers

---
 cgi_func.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 57b9aae..5d39dbe 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -191,10 +191,13 @@ int get_multipart_form_data( const char *boundary, char *field,
          *endptr = '\0';
          strcpy( filename, filename_ptr + 10);
          }
-      if( fgets( buff, (int)max_len, stdin))
-         {
+               /* skip any remaining headers,  such as a Content-Type, */
+               /* and the blank line that separates them from the data */
+      while( fgets( buff, (int)max_len, stdin) && buff[0] != 10 && buff[0] != 13)
          if( strlen( buff) == max_len - 1)
             return( OVERRUN);
+      if( buff[0] == 10 || buff[0] == 13)
+         {
          while( bytes_read < max_len - 1 &&
                  fgets( buff + bytes_read, (int)( max_len - bytes_read), stdin)
                  && strncmp( buff + bytes_read, boundary, blen))
-- 
2.43.0


From 6b9d067f82ba2002a88db4405932dac4076f444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:47 +0000
Subject: [PATCH 110/187] fix: an empty form submission crashed,  and
 free_cgi_data( ) leaked the boundary or freed the data twice

---
 cgi_func.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cgi_func.cpp b/cgi_func.cpp
index 5d39dbe..cc97548 100644
--- a/cgi_func.cpp
+++ b/cgi_func.cpp
@@ -16,6 +16,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 02110-1301, USA. */
 
 #include <stdio.h>
+#include <limits.h>
 #include <string.h>
 #include <assert.h>
 #include <stdlib.h>
@@ -249,7 +250,7 @@ static int method, ilen;
 
 int initialize_cgi_reading( void)
 {
-   method = 0;
+   free_cgi_data( );
    url_string = getenv( "QUERY_STRING");
    if( url_string && *url_string)      /* METHOD=GET */
       {
@@ -269,17 +270,20 @@ int initialize_cgi_reading( void)
       else
          return( -2);
       eptr = getenv( "CONTENT_LENGTH");
-      assert( eptr);
-      ilen = atoi( eptr);
-      assert( ilen);
-      ibuff = (char *)malloc( ilen + 1);
-      if( !fgets( ibuff, ilen + 1, stdin))
+      ilen = (eptr ? atoi( eptr) : 0);
+      if( ilen > 0 && ilen < INT_MAX)
+         ibuff = (char *)malloc( ilen + 1);
+      if( !ibuff || !fgets( ibuff, ilen + 1, stdin))
+         {
+         method = 0;
          return( -3);
+         }
       if( method == METHOD_PUT_URL)
          url_pointer = ibuff;
       else           /* must be multipart */
          {
          boundary = (char *)malloc( strlen( ibuff) + 1);
+         assert( boundary);
          strcpy( boundary, ibuff);
          }
       }
@@ -318,4 +322,9 @@ void free_cgi_data( void)
 {
    if( ibuff)
       free( ibuff);
+   if( boundary)
+      free( boundary);
+   ibuff = boundary = NULL;
+   url_pointer = NULL;
+   method = 0;
 }
-- 
2.43.0


From 489824edece28cf0275a8bee65e5b9c6e98f9ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:39 +0000
Subject: [PATCH 111/187] fix: Delta-T for absurd or undefined dates read far
 outside its table

---
 delta_t.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index a425528..90b8885 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -220,13 +220,15 @@ double default_td_minus_ut( const double jd)
       {
       const double index_loc = (year - 1620.) / 2.;
       double dt;
-      int index = (int)index_loc;
+      int index;
       const short *tptr;
       const int delta_t_table_size =
             sizeof( delta_t_table) / sizeof( delta_t_table[0]);
 
-      if( index > delta_t_table_size - 2 || jd > 3e+7)   /* running off end of table */
-         index = delta_t_table_size - 2;
+      if( index_loc >= 0. && index_loc < (double)( delta_t_table_size - 1))
+         index = (int)index_loc;
+      else              /* running off an end of the table */
+         index = (index_loc < 0. ? 0 : delta_t_table_size - 2);
       dt = index_loc - (double)index;
       tptr = delta_t_table + index;
       rval = (double)tptr[0] + (double)(tptr[1] - tptr[0]) * dt;
-- 
2.43.0


From 47a917bee0c93531c57c12b649f3e82ded49d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:39 +0000
Subject: [PATCH 112/187] fix: a month of INT_MIN overflowed in dmy_to_day( )

---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index fcf492e..8d2354c 100644
--- a/date.cpp
+++ b/date.cpp
@@ -712,7 +712,7 @@ long DLL_FUNC dmy_to_day( const int day, const int month, const long year,
       if( day == RETURN_DAYS_IN_MONTH)
          return( month > 0 && month <= N_MONTHS ? mdata[month - 1] : 0);
       jd = year_ends[0];
-      for( int i = 0; i < month - 1 && i < N_MONTHS; i++)
+      for( int i = 0; i < N_MONTHS && i + 1 < month; i++)
          jd += mdata[i];
       jd += (long)day - 1;
       }
-- 
2.43.0


From 1d73f9c4b95de95ac82c8e02d8c400df9032ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 113/187] fix: day_to_dmy( ) left the month unset for dates
 outside a calendar's range

---
 date.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/date.cpp b/date.cpp
index 8d2354c..0c0c4d0 100644
--- a/date.cpp
+++ b/date.cpp
@@ -832,7 +832,7 @@ void DLL_FUNC day_to_dmy( const long jd, int DLLPTR *day,
           ((jd > GREGORIAN_SWITCHOVER_JD) ? CALENDAR_GREGORIAN : CALENDAR_JULIAN);
 
    *year = approx_year( jd, calendar_to_use);
-   *day = -1;           /* to signal an error */
+   *day = *month = -1;           /* to signal an error */
    do
       {
       if( get_calendar_data( *year, year_ends, month_data, calendar_to_use))
@@ -845,7 +845,6 @@ void DLL_FUNC day_to_dmy( const long jd, int DLLPTR *day,
    while( year_ends[0] > jd || year_ends[1] <= jd);
 
    curr_jd = year_ends[0];
-   *month = -1;
    for( int i = 0; i < N_MONTHS; i++)
       {
       *day = (int)( jd - curr_jd);
-- 
2.43.0


From 4f907a986a292f68934adb44111333e711ba4da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:00 +0000
Subject: [PATCH 114/187] fix: short ADES references were compared past their
 ends

---
 ades2mpc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index 8b7362a..bd2dd0f 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -334,7 +334,7 @@ static inline void pack_mpc_reference( char *packed, const char *ref)
       packed[0] = packed[1] = '0';
       memcpy( packed + 14 - len, ref, len - 11);
       }
-   else if( !memcmp( ref, "MPS ", 4))
+   else if( !strncmp( ref, "MPS ", 4))
       {
       unsigned mps_number = atoi( ref + 4);
 
@@ -351,7 +351,7 @@ static inline void pack_mpc_reference( char *packed, const char *ref)
          encode_value_in_mutant_hex( packed + 1, 4, mps_number - 260000);
          }
       }
-   else if( !memcmp( ref, "MPC ", 4))
+   else if( !strncmp( ref, "MPC ", 4))
       {
       unsigned mpc_number = atoi( ref + 4);
 
-- 
2.43.0


From 880794f3113909c4baacce2d462346280a90fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:37 +0000
Subject: [PATCH 115/187] fix: short lines in 'cospar.txt' were compared past
 their ends

---
 cospar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cospar.cpp b/cospar.cpp
index 621a3b3..e81d2c1 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -89,7 +89,7 @@ static int get_cospar_data_from_text_file( int object_number,
 
          fseek( ifile, 0L, SEEK_SET);
          line = 0;
-         while( fgets( buff, sizeof( buff), ifile) && memcmp( buff, "END", 3))
+         while( fgets( buff, sizeof( buff), ifile) && strncmp( buff, "END", 3))
             {
             for( i = 0; buff[i] >= ' ' && buff[i] != '#'; i++)
                ;
@@ -99,7 +99,7 @@ static int get_cospar_data_from_text_file( int object_number,
 
                buff[i] = '\0';
                         /* remove redundant spaces: */
-               if( memcmp( buff, "Remap:", 6))
+               if( strncmp( buff, "Remap:", 6))
                   for( i = j = 0; buff[j]; j++)
                      if( buff[j] != ' ')
                         buff[i++] = buff[j];
-- 
2.43.0


From 52cc22a37cd6eaa9eb6394159dc10e16b65f7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:54 +0000
Subject: [PATCH 116/187] fix: td_minus_utc( ) overflowed for absurd or
 undefined dates

---
 delta_t.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index 90b8885..706f7a6 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -412,7 +412,8 @@ double DLL_FUNC td_minus_utc( const double jd_utc)
       }
    else              /* integral leap seconds */
       {
-      int imjd_utc = (int)mjd_utc;
+      const int max_mjd = 2000000000;        /* avoids overflow below */
+      int imjd_utc = mjd_end_of_predictive_leap_seconds;
       static const unsigned short leap_intervals[] = {
                  JAN_1( 1972) - utc0, JUL_1( 1972) - utc0, JAN_1( 1973) - utc0,
                  JAN_1( 1974) - utc0, JAN_1( 1975) - utc0, JAN_1( 1976) - utc0,
@@ -426,8 +427,10 @@ double DLL_FUNC td_minus_utc( const double jd_utc)
                  JAN_1( 2017) - utc0 };
       const int n_leap_seconds = sizeof( leap_intervals) / sizeof( leap_intervals[0]);
 
-      if( imjd_utc > mjd_end_of_predictive_leap_seconds)
-         imjd_utc = mjd_end_of_predictive_leap_seconds;
+      if( imjd_utc > max_mjd)
+         imjd_utc = max_mjd;
+      if( mjd_utc < (double)imjd_utc)
+         imjd_utc = (int)mjd_utc;
       if( imjd_utc >= DEC_1( 2021))
          {
          int day = imjd_utc + 2400000 - 1721058;
-- 
2.43.0


From 7443503877c1795345618b4f7439b68a23bc6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:18 +0000
Subject: [PATCH 117/187] fix: EOP files with nonsense for an MJD were
 accepted,  causing overflows

---
 eop_prec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index 46bc64f..ef9c53f 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -86,6 +86,7 @@ static bool is_valid_eop_line( const char *iline)
 {
    if( strlen( iline) != eop_iline_len || iline[12] != '.'
             || iline[27] != ' '
+            || strspn( iline + 7, " 0123456789") != 5
             || iline[20] != '.' || iline[13] != '0' || iline[14] != '0')
       return( false);
    else
-- 
2.43.0


From 53c44ac2c658bf2deae7f18c2ce12bffd3f81b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:27 +0000
Subject: [PATCH 118/187] fix: Earth orientation for dates extremely far from
 those of the file overflowed

---
 spline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spline.cpp b/spline.cpp
index 6143e68..38b1954 100644
--- a/spline.cpp
+++ b/spline.cpp
@@ -84,7 +84,8 @@ twice equation (2) :
 double cubic_spline_interpolate_within_table(
          const double *table, const int n_entries, double x, int *err_code)
 {
-   int idx = (int)floor( x);
+   const double max_x = (double)n_entries;      /* avoid overflows for x */
+   int idx = (int)floor( x < -1. ? -1. : (x < max_x ? x : max_x)); /* far outside the table */
 
    if( idx < 1)      /* extrapolate from front of table */
       {
-- 
2.43.0


From 041825cb3b4d5f7da887ada340f4c2a40de58a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:17 +0000
Subject: [PATCH 119/187] fix: angles numbered from zero in 'cospar.txt' (as
 for Neptune) were refused by the earlier check on their numbers

---
 cospar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.cpp b/cospar.cpp
index e81d2c1..ceffa1f 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -245,7 +245,7 @@ static int get_cospar_data_from_text_file( int object_number,
                            err = -4;
                         }
                      assert( angular_coeffs_line);
-                     if( idx < 1 || idx >= n_text_lines - angular_coeffs_line)
+                     if( idx < 0 || idx >= n_text_lines - angular_coeffs_line)
                         return( -4);               /* no such angle */
                      ang_ptr = strchr( cospar_text[angular_coeffs_line + idx], '=');
                      if( !ang_ptr)
-- 
2.43.0


From 521b734afa9aa8364141ac5045d2b8862cdd055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:17 +0000
Subject: [PATCH 120/187] fix: fgets_with_ades_xlation( ) ran through an unset
 buffer at end of file

---
 ades2mpc.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index bd2dd0f..c79c17c 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -1310,9 +1310,12 @@ int fgets_with_ades_xlation( char *buff, const size_t len,
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
    while( !prev_rval && fgets_trimmed( buff, (int)len, ifile))
       prev_rval = xlate_ades2mpc_in_place( ades_context, buff);
-   while( *buff && *buff != 10 && *buff != 13)
-      buff++;
-   *buff = '\0';
+   if( prev_rval)       /* else we're at end of file,  with nothing in 'buff' */
+      {
+      while( *buff && *buff != 10 && *buff != 13)
+         buff++;
+      *buff = '\0';
+      }
    cptr->prev_rval = prev_rval;
    return( prev_rval);
 }
-- 
2.43.0


From d5aee282a4e5d3f7b448d2c79be83f06107dc6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:20 +0000
Subject: [PATCH 121/187] fix: without 'cospar.txt',  orientations depended on
 an unset variable

---
 cospar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cospar.cpp b/cospar.cpp
index ceffa1f..9704530 100644
--- a/cospar.cpp
+++ b/cospar.cpp
@@ -373,7 +373,7 @@ int DLL_FUNC calc_planet_orientation( const int planet_no, const int system_no,
    static double prev_tdt = -1.;
    static double prev_matrix[9];
    int i, rval;
-   bool is_retrograde;
+   bool is_retrograde = false;
    double pole_ra = 0., pole_dec = 0., omega = 0.;
    const double tdt = jd + td_minus_ut( jd) / seconds_per_day;
 
-- 
2.43.0


From 51e6146eddde0e079ac11b3ca0d8bd93d6217a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 122/187] fix: long command lines overflowed a buffer in 'jd'

---
 jd.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jd.cpp b/jd.cpp
index 23ba92b..e3c16a2 100644
--- a/jd.cpp
+++ b/jd.cpp
@@ -28,6 +28,7 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 #include "watdefs.h"
 #include "date.h"
 #include "afuncs.h"
+#include "stringex.h"
 
 #ifdef __WATCOMC__
 #define floorl floor
@@ -207,9 +208,9 @@ int main( int argc, char **argv)
 
    *buff = '\0';
    for( i = 1; i < argc; i++)
-      if( !memcmp( argv[i], "-c", 2))
+      if( !strncmp( argv[i], "-c", 2))
          calendar = atoi( argv[i] + 2);
-      else if( !memcmp( argv[i], "-e", 2))
+      else if( !strncmp( argv[i], "-e", 2))
          {
          const int max_mjd = load_earth_orientation_params( argv[i] + 2, NULL);
 
@@ -221,8 +222,8 @@ int main( int argc, char **argv)
       else
          {
          if( *buff)
-            strcat( buff, " ");
-         strcat( buff, argv[i]);
+            strlcat_error( buff, " ");
+         strlcat_error( buff, argv[i]);
          }
 
    if( !*buff)
-- 
2.43.0


From abe601d5b6fe9ae09389b8e4904bdbcccaca4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 123/187] fix: long object names overflowed a buffer in
 'moidtest'

---
 moidtest.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moidtest.cpp b/moidtest.cpp
index 69dcf35..c221bf2 100644
--- a/moidtest.cpp
+++ b/moidtest.cpp
@@ -7,6 +7,7 @@
 #include "comets.h"
 #include "afuncs.h"
 #include "mpc_func.h"
+#include "stringex.h"
 
 #define PI 3.1415926535897932384626433832795028841971693993751058209749445923
 #define GAUSS_K .01720209895
@@ -103,8 +104,8 @@ int main( const int argc, const char **argv)
       if( argv[i][0] != '-')
          {
          if( *obj_name)
-            strcat( obj_name, " ");
-         strcat( obj_name, argv[i]);
+            strlcat_error( obj_name, " ");
+         strlcat_error( obj_name, argv[i]);
          }
       else
          {
-- 
2.43.0


From b877186941b2133d1dcae54fe3cb07d8d1926032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 124/187] fix: 'calendar' with only one argument crashed
 instead of describing its use

---
 calendar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calendar.cpp b/calendar.cpp
index a4e714f..852677c 100644
--- a/calendar.cpp
+++ b/calendar.cpp
@@ -678,7 +678,7 @@ int main( const int argc, const char **argv)
 {
    int i, month = 0, year;
 
-   if( argc == 1)
+   if( argc < 3)
       error_exit( -2);
    year = atoi( argv[1]);
    month = atoi( argv[2]);
-- 
2.43.0


From 23afad6c2eabef3de4ee8b684dce5b79ee7b0157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 125/187] fix: 'solseqn' without arguments crashed

---
 solseqn.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/solseqn.cpp b/solseqn.cpp
index 3d17164..29797d3 100644
--- a/solseqn.cpp
+++ b/solseqn.cpp
@@ -97,7 +97,7 @@ double get_solstice_equinox_date( double jd)
 #ifdef TEST_CODE
 int main( const int argc, const char **argv)
 {
-   double year = atof( argv[1]), jd = 1721139.29189 + 365.242137 * year;
+   double year = (argc > 1 ? atof( argv[1]) : 0.), jd = 1721139.29189 + 365.242137 * year;
    double max_jd = 1721139.29189 + 365.242137 * 10000.;
                /* jd is approx March equinox */
    int season = 0, i, verbose = 0, output_mask = 15;
@@ -128,6 +128,11 @@ int main( const int argc, const char **argv)
                break;
             }
 
+   if( argc < 2)
+      {
+      printf( "'solseqn' needs a starting year on the command line\n");
+      return( -1);
+      }
    setvbuf( stdout, NULL, _IONBF, 0);
    if( verbose > 1)
       printf( "Starting up...\n");
-- 
2.43.0


From 887d2c1d04dd998ff1df65acaf7819fc3f6e1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 126/187] fix: 'tables' without arguments crashed

---
 tables.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tables.cpp b/tables.cpp
index e06cfd9..1927dd2 100644
--- a/tables.cpp
+++ b/tables.cpp
@@ -90,11 +90,16 @@ static int quadrant( double angle)
 int main( int argc, char **argv)
 {
    char *vsop_data = load_file_into_memory( "vsop.bin", NULL);
-   int i, year = atoi( argv[1]);
+   int i, year = (argc > 1 ? atoi( argv[1]) : 0);
    int month_start = 1, month_end = 12, month;
    const double observer_lon = -69.90 * pi / 180.;
    const double observer_lat = 44.01 * pi / 180.;
 
+   if( argc < 2)
+      {
+      printf( "'tables' needs a year (and,  optionally,  a month) on the command line\n");
+      return( -1);
+      }
    if( !vsop_data)
       {
       printf( "VSOP.BIN wasn't loaded.\n");
-- 
2.43.0


From 3af5bbd376fd19ebb0fe10049274126d7947b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 127/187] fix: 'transit' with fewer than three arguments
 crashed

---
 transit.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/transit.cpp b/transit.cpp
index 82460e1..2b19752 100644
--- a/transit.cpp
+++ b/transit.cpp
@@ -90,10 +90,11 @@ void lon_lat_diff( char *buff, double t, int planet1, int planet2,
 
 int main( const int argc, const char **argv)
 {
-   int planet1 = atoi( argv[1]), planet2 = atoi( argv[2]);
+   int planet1 = (argc > 1 ? atoi( argv[1]) : 0);
+   int planet2 = (argc > 2 ? atoi( argv[2]) : 0);
    int day = 0, month = 1, i, verbose = 0, getting_elong = 0;
    int for_etb = 0;
-   long year = atol( argv[3]), loop_count = 0;
+   long year = (argc > 3 ? atol( argv[3]) : 0), loop_count = 0;
    double max_t = 3e+6;
    double synodic, t, d_lon1, d_lon2, d_lon, d_lat1, check_range;
    char *buff = (char *)malloc( VSOP_SIZE);
@@ -101,6 +102,11 @@ int main( const int argc, const char **argv)
    FILE *logfile = NULL;
    char str[80];
 
+   if( argc < 4)
+      {
+      printf( "'transit' needs two planet numbers and a starting year on the command line\n");
+      return( -1);
+      }
    assert( ifile);
    assert( buff);
          /* assume planet1 = outer planet,  planet2 = inner */
-- 
2.43.0


From 23810f64e3fb6e1381bee9bf898282d8f8092fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 128/187] fix: 'ps_1996' without arguments crashed

---
 ps_1996.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ps_1996.cpp b/ps_1996.cpp
index 2769359..844570c 100644
--- a/ps_1996.cpp
+++ b/ps_1996.cpp
@@ -204,7 +204,7 @@ int main( const int argc, const char **argv)
 {
    FILE *ifile = fopen( "elp82.dat", "rb");
    double xyz[4], xyz_topo[3], topo_offset[3];
-   double jd_utc = get_time_from_string( 0., argv[1],
+   double jd_utc = get_time_from_string( 0., (argc > 1 ? argv[1] : ""),
                   CALENDAR_JULIAN_GREGORIAN, NULL);
    double jd_td = jd_utc + td_minus_utc( jd_utc) / seconds_per_day;
    double jd_ut = jd_td - td_minus_ut( jd_utc) / seconds_per_day;
@@ -217,6 +217,11 @@ int main( const int argc, const char **argv)
    void *p;
 
    printf( "Example for ELP82 and PS1996\n");
+   if( argc < 2)
+      {
+      printf( "'ps_1996' needs a date/time on the command line\n");
+      return( -1);
+      }
    if( !ifile)
       {
       printf( "Couldn't find 'elp82.dat'\n");
-- 
2.43.0


From e82b1886a6a2d79fea684b648f6f38d42a64963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 129/187] fix: 'persian' without arguments,  or with an empty
 range of years,  crashed

---
 persian.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/persian.cpp b/persian.cpp
index 99ca451..53d585c 100644
--- a/persian.cpp
+++ b/persian.cpp
@@ -91,10 +91,15 @@ static double jd_equinox( long year)
 
 int main( int argc, const char **argv)
 {
-   long year = atol( argv[1]), n_years, year0;
+   long year = (argc > 1 ? atol( argv[1]) : 0), n_years, year0;
    int i, j;
    double longitude;
 
+   if( argc < 2)
+      {
+      printf( "'persian' needs a year,  or a range of years,  on the command line\n");
+      return( -1);
+      }
    for( i = 3; i < argc; i++)
       {
       if( argv[i][0] == '-')
@@ -123,7 +128,7 @@ int main( int argc, const char **argv)
       {
       n_years = atol( argv[2]);
 
-      while( n_years--)
+      while( n_years-- > 0)
          {
          long greg_year = year + year0;
          double jd1 = jd_equinox( greg_year     ) + longitude;
@@ -176,13 +181,14 @@ int main( int argc, const char **argv)
       {
       long y1 = atol( argv[1]);
       long y2 = atol( argv[2]);
-      long *jds = (long *)calloc( (size_t)(y2 - y1), sizeof( long));
+      long *jds = (y2 <= y1 ? NULL :
+                     (long *)calloc( (size_t)(y2 - y1), sizeof( long)));
       long offset, max_year = -100000;
       long const1 = atol( argv[3]), const2 = 10000L;
 
       if( !jds)
          {
-         printf( "Out of memory\n");
+         printf( "No years in that range,  or out of memory\n");
          exit( 0);
          }
       if( !const1)
-- 
2.43.0


From 560091c471e1f7a20c141b7a347be98d9c01b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 130/187] fix: colors that are huge or not numbers overflowed
 in tycho_to_johnson_colors( )

---
 colors2.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/colors2.cpp b/colors2.cpp
index bbc2609..3d723df 100644
--- a/colors2.cpp
+++ b/colors2.cpp
@@ -51,7 +51,7 @@ HIPPARCOS/TYCHO DATA FOR B-G MAIN-SEQUENCE STARS AND K-M GIANTS   */
 
 int tycho_to_johnson_colors( const double bt_minus_vt, double *results)
 {
-   int i, table_loc = (int)( (bt_minus_vt + .25) / .05) - 1;
+   int i, table_loc;
    double dx, coeff[4];
    static const short lookup_tbl[LOOKUP_SIZE * 3] = {
       /*  BT-VT     V-VT  del(B-V)  V-Hp */
@@ -102,8 +102,9 @@ int tycho_to_johnson_colors( const double bt_minus_vt, double *results)
       /*  1.950 */ -199, -331,   -112,
       /*  2.000 */ -206, -342,   -106 };
 
-   if( bt_minus_vt < -.25 || bt_minus_vt > 2.)
+   if( !(bt_minus_vt >= -.25 && bt_minus_vt <= 2.))
       return( -1);         /* out of table range */
+   table_loc = (int)( (bt_minus_vt + .25) / .05) - 1;
    if( table_loc < 0)
       table_loc = 0;
    if( table_loc >= LOOKUP_SIZE - 4)
-- 
2.43.0


From 585ca0f68248246be18fee6f5760c3aecd17dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 131/187] fix: 'mms' crashed if its output file couldn't be
 opened

---
 mms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mms.cpp b/mms.cpp
index 1240181..de448ab 100644
--- a/mms.cpp
+++ b/mms.cpp
@@ -79,7 +79,7 @@ int main( const int argc, const char **argv)
    if( argc > 2 && argv[2][0] != '-')
       {
       ofile = fopen( argv[2], "wb");
-      if( !ifile)
+      if( !ofile)
          {
          fprintf( stderr, "Couldn't open '%s' ", argv[2]);
          perror( NULL);
-- 
2.43.0


From 2313e656040ac4f7e155b4fdb85f95e64e0fd838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:59 +0000
Subject: [PATCH 132/187] fix: 'parallax -m' without an observatory code showed
 an unset name

---
 parallax.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parallax.cpp b/parallax.cpp
index 932152a..a6db893 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -230,6 +230,7 @@ int main( int argc, const char **argv)
    int i, use_only_obscodes_dot_html = 0;
    int show_mpc_format = 0;
 
+   memset( &loc, 0, sizeof( mpc_code_t));
    for( i = 1; i < argc; i++)
       if( argv[i][0] == '-' && !isdigit( argv[i][1]))
          {                    /* handle a command line option,  then remove it */
@@ -282,8 +283,8 @@ int main( int argc, const char **argv)
       printf( "contact_name: Bill Gray\n");
       printf( "email_adr: pluto@projectpluto.com\n");
       printf( "observatory_code: %s\n", loc.code);
-      printf( "observatory_name: %s\n", loc.name);
-      printf( "observatory_site: %s\n", loc.name);
+      printf( "observatory_name: %s\n", loc.name ? loc.name : "");
+      printf( "observatory_site: %s\n", loc.name ? loc.name : "");
       printf( "observatory_country: US\n");
       printf( "observatory_lat: %f\n", loc.lat);
       printf( "observatory_long: %f\n", loc.lon);
-- 
2.43.0


From e7b8eaec70cff371fb9e3614b35acd612695a68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 133/187] fix: 'astcheck' got the motion wrong for objects
 crossing 0h RA

---
 astcheck.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 4d1cf36..f6aecea 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -461,10 +461,10 @@ static double compute_motion( const char **lines, const int n_lines,
 
          if( !get_mpc_data( lines[i], &jd1, &ra1, &dec1)
                 && fabs( jd1 - jd) < 10.   /* within ten days... */
-                && fabs( ra1 - ra) < five_degrees
+                && fabs( centralize_angle( ra1 - ra)) < five_degrees
                 && fabs( dec1 - dec) < five_degrees)
             {
-            *ra_motion = (ra1 - ra) / (jd1 - jd);
+            *ra_motion = centralize_angle( ra1 - ra) / (jd1 - jd);
             *dec_motion = (dec1 - dec) / (jd1 - jd);
             *ra_motion *= cos( dec);
                      /* cvt radians/day to arcsec/hr: */
-- 
2.43.0


From c3076a245423dcdbd3af1836b534b596b2da29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 134/187] fix: 'astcheck' divided by zero if an observation was
 given twice

---
 astcheck.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index f6aecea..c72d41d 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -459,7 +459,7 @@ static double compute_motion( const char **lines, const int n_lines,
          double ra1, dec1, jd1;
          const double five_degrees = PI / 36.;
 
-         if( !get_mpc_data( lines[i], &jd1, &ra1, &dec1)
+         if( !get_mpc_data( lines[i], &jd1, &ra1, &dec1) && jd1 != jd
                 && fabs( jd1 - jd) < 10.   /* within ten days... */
                 && fabs( centralize_angle( ra1 - ra)) < five_degrees
                 && fabs( dec1 - dec) < five_degrees)
-- 
2.43.0


From 6b4e3f1963839e114842f73964d667453cdc39ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 135/187] fix: 'astcheck' missed objects near the observation
 in RA at high declinations

---
 astcheck.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index c72d41d..0e20299 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -763,8 +763,11 @@ int main( const int argc, const char **argv)
          const int16_t int_ra  = (int16_t)integerize_angle( ra);
          const double delta_t = td_minus_ut( jd) / seconds_per_day;
          double jd2;
-         const int16_t tolerance = (int16_t)
-                          ( tolerance_in_arcsec * 65536 / (360. * 3600.));
+         const double full_circle = 360. * 3600.;     /* in arcseconds */
+         const int tolerance = (int)( 65536. *
+                     fmin( tolerance_in_arcsec / full_circle, 1.));
+         const int ra_tolerance = (int)( 65536. * fmin(
+                     tolerance_in_arcsec / (full_circle * fabs( cos_dec)), 1.));
          char tbuff[300];
          int n_results = 0;
          int n_checked = 0;
@@ -867,12 +870,10 @@ int main( const int argc, const char **argv)
          n_lines_printed++;
          for( i = 0; i < n_asteroids; i++)
             {
-            const int16_t tolerance2 = tolerance;
-
             assert( day_data[0]);
             assert( day_data[1]);
-            if( is_between( day_data[0][i].ra, day_data[1][i].ra, int_ra, tolerance2 + 5))
-               if( is_between( day_data[0][i].dec, day_data[1][i].dec, int_dec, tolerance2 + 5))
+            if( is_between( day_data[0][i].ra, day_data[1][i].ra, int_ra, ra_tolerance + 5))
+               if( is_between( day_data[0][i].dec, day_data[1][i].dec, int_dec, tolerance + 5))
                   {
                   ELEMENTS class_elem;
                   double ra1, dec1, mag;
-- 
2.43.0


From 63eaf22f2564dd14868ee2b46676f2a91ac7e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 136/187] fix: 'astcheck' kept using cached positions after the
 orbits changed

---
 astcheck.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 0e20299..5402eb2 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -166,12 +166,16 @@ static FILE *get_sof_file( const char *filename)
       n_asteroids = filelen / record_length - 1;      /* there's a header line */
       for( i = 0; i < 4; i++)
          {
-         const int32_t big_prime = 1234567891;
-
-         fseek( ifile, (long)( i * (filelen - sizeof( buff))) / 3L, SEEK_SET);
-         if( fread( buff, sizeof( buff), 1, ifile))
-            for( j = 0; j < sizeof( buff); j++)
-               sof_checksum = sof_checksum * big_prime + (int32_t)buff[i];
+         const uint32_t big_prime = 1234567891;
+         const long offset = (filelen > (int)sizeof( buff) ?
+                  (long)i * (filelen - (long)sizeof( buff)) / 3L : 0L);
+         size_t n_read;
+
+         fseek( ifile, offset, SEEK_SET);
+         n_read = fread( buff, 1, sizeof( buff), ifile);
+         for( j = 0; j < n_read; j++)
+            sof_checksum = (int32_t)( (uint32_t)sof_checksum * big_prime
+                                    + (uint32_t)(unsigned char)buff[j]);
          }
       fseek( ifile, 0L, SEEK_SET);
       if( verbose)
-- 
2.43.0


From d57e444cbb4d4d7d2f82c25ecd141a7fd6d2560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 137/187] fix: columns that weren't in 'mpcorb.dat' overran
 buffers in 'astcheck'

---
 astcheck.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/astcheck.cpp b/astcheck.cpp
index 5402eb2..43e5cca 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -982,6 +982,14 @@ int main( const int argc, const char **argv)
                                  fprintf( stderr, "Error parsing mpcorb extracts at '%s'\n", tptr);
                                  exit( -1);
                                  }
+                              if( start < 1 || count < 0
+                                      || count >= (int)sizeof( mpcorb_info)
+                                      || start + count - 1 > (int)strlen( mpcorb_info)
+                                      || endptr + count + 2 > tbuff + sizeof( tbuff))
+                                 {
+                                 fprintf( stderr, "Mpcorb extract out of range at '%s'\n", tptr);
+                                 exit( -1);
+                                 }
                               *endptr++ = ' ';
                               memcpy( endptr, mpcorb_info + start - 1, count);
                               endptr[count] = '\0';
-- 
2.43.0


From 343dfad3f32ccca995266b52b285a11c28708b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 138/187] fix: long fields overflowed a buffer in 'csv2ades'

---
 csv2ades.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csv2ades.c b/csv2ades.c
index c6c9dee..f06bf3f 100644
--- a/csv2ades.c
+++ b/csv2ades.c
@@ -82,7 +82,7 @@ static char *get_csv( char *obuff, const char *ibuff,
 static void csv_to_ades( const char *ibuff, const char *header,
                           const int low_num, const int high_num)
 {
-   char tbuff[90];
+   char tbuff[100];
    int num;
 
    get_csv( tbuff, ibuff, header, "number_mp,", 9);
-- 
2.43.0


From 9bdd5baf6dd5fe5ae659937629473e6ffd3daf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 139/187] fix: object numbers too large for any object
 overflowed in 'csv2ades'

---
 csv2ades.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/csv2ades.c b/csv2ades.c
index f06bf3f..e9a9bfd 100644
--- a/csv2ades.c
+++ b/csv2ades.c
@@ -165,7 +165,7 @@ static bool file_needed( const int file_no, const int low_num, const int high_nu
 {
    int i;
 
-   for( i = low_num; i <= high_num && i < low_num + 20; i++)
+   for( i = low_num; i <= high_num && i - low_num < 20; i++)
       if( ((i + 11) % 20) == file_no)
          return true;
    return( false);
@@ -182,11 +182,14 @@ int main( const int argc, const char **argv)
       perror( "Can't open 'gaia.hdr'");
       return( -1);
       }
-   if( argc != 2 || sscanf( argv[1], "%d,%d", &low_num, &high_num) < 1)
+   if( argc != 2 || sscanf( argv[1], "%d,%d", &low_num, &high_num) < 1
+                     || low_num < 1 || low_num > 999999999)
       {
       fprintf( stderr, "No asteroids specified on the command line\n");
       error_exit( );
       }
+   if( high_num > 999999999)
+      high_num = 999999999;
    if( high_num < 0)    /* just specified one asteroid */
       high_num = low_num;
    while( fgets( buff, sizeof( buff), hdr_file))
-- 
2.43.0


From 920ab8e8b3282210df1cb95fe3b544dcb66c84b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 140/187] fix: wrong buffer size when adding a file's name to
 the path of 'mpc_code'

---
 mpc_code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 563b3d8..680dead 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -808,7 +808,7 @@ static FILE *fopen_ext( const char *exec_path, const char *filename, const char
    while( i && obuff[i - 1] != '/' && obuff[i - 1] != '\\')
       i--;
    obuff[i] = '\0';
-   strlcat_err( obuff + i, filename, sizeof( obuff));
+   strlcat_err( obuff, filename, sizeof( obuff));
    rval = fopen( obuff, permits);
 // if( !rval)
 //    rval = fopen( obuff + i, permits);
-- 
2.43.0


From 5e17757150d5dfc216d1b75af5c71f81de845630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 141/187] fix: 'parallax' had too small a buffer for the names
 of regions

---
 parallax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallax.cpp b/parallax.cpp
index a6db893..c3e6241 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -103,7 +103,7 @@ static int get_mpc_obscode_data( mpc_code_t *loc, const char *mpc_code, int pass
 
 static void show_location( const mpc_code_t *loc)
 {
-   char buff[80];
+   char buff[100];
 
    if( loc->lon)
       {
-- 
2.43.0


From 0a3862ba5d259d1eef674edbbe1838d4e4b990eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 142/187] fix: 'mms' read past the end of short lines

---
 mms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mms.cpp b/mms.cpp
index de448ab..b02e9ab 100644
--- a/mms.cpp
+++ b/mms.cpp
@@ -52,7 +52,7 @@ static const char *get_arg( const int argc, const char **argv, const int idx)
 
 static double mms_ephem_jd( const char *buff)
 {
-   if( strlen( buff) > 150 && buff[4] == '-' && buff[8] == '/'
+   if( strlen( buff) >= 184 && buff[4] == '-' && buff[8] == '/'
                && buff[11] == ':')
       return( atof( buff + 23) + JAN_1_1958);
    else
-- 
2.43.0


From 097f39b32fdd47845b7e2ab48634c55f93932da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 143/187] fix: phase correction was scaled down in the
 magnitudes of 'astephem'

---
 astephem.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index e6b05c5..2d8935b 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -39,7 +39,6 @@ J2000.0 position from EART2000.CPP are also used.
 #define ASTORB_RECORD_LEN 268
 
 #define PI 3.1415926535897932384626433832795028841971693993751058209749445923
-#define LOG_10 2.3025850929940456840179914546843642076011014886287729760333279009675726
 
 int get_earth_loc( const double t_millennia, double *results);
 
@@ -56,18 +55,17 @@ static double calc_obs_magnitude( ELEMENTS *elem, const double obj_sun,
    double magnitude;
 
    if( !elem->is_asteroid)
-      magnitude = elem->slope_param * log( obj_sun);
+      magnitude = elem->slope_param * log10( obj_sun);
    else
       {
       const double cos_phase_ang =
                   law_of_cosines( obj_sun, obj_earth, earth_sun);
       const double phase_ang = acose( cos_phase_ang);
 
-      magnitude = 5. * log( obj_sun) + phase_angle_correction_to_magnitude(
+      magnitude = 5. * log10( obj_sun) + phase_angle_correction_to_magnitude(
                                    phase_ang, elem->slope_param);
       }
-   magnitude += 5. * log( obj_earth);
-   magnitude /= LOG_10;      /* cvt from natural logs to common (base 10) */
+   magnitude += 5. * log10( obj_earth);
    magnitude += elem->abs_mag;
    return( magnitude);
 }
-- 
2.43.0


From c1295b9ce888e775b3a83e42342b8550c332a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 144/187] fix: 'astephem' lost the sign of declinations between
 zero and -1 degree,  and could show 60.00 arcminutes

---
 astephem.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index 2d8935b..32fd144 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -109,7 +109,7 @@ int main( const int argc, const char **argv)
    double asteroid_loc[4];
    double t = jan_1970 + (double)( time( NULL) / seconds_per_day);
    int day, month = 0, i, j, n_intervals = 20;
-   long year, ra_sec_tenths;
+   long year, ra_sec_tenths, dec_hundredths;
    ELEMENTS class_elem;
    FILE *ifile = fopen( "astorb.dat", "rb");
    char tbuff[300], object_name[40];
@@ -222,13 +222,15 @@ int main( const int argc, const char **argv)
       if( ra < 0.) ra += 360.;
       dec = asin( z / dist) * 180. / PI;
       ra_sec_tenths = (long)(ra * 36000. / 15.);
+      dec_hundredths = (long)( fabs( dec) * 6000. + .5);
                      /* ...and show me the data:  */
       snprintf_err( tbuff, sizeof( tbuff),
-              "%2d %s %4ld:  %2ldh%02ldm%02ld.%lds   %3d %5.2f'  %6.3f  %6.3f  %4.1f %4.1f\n",
+              "%2d %s %4ld:  %2ldh%02ldm%02ld.%lds   %c%02ld %2ld.%02ld'  %6.3f  %6.3f  %4.1f %4.1f\n",
               day, set_month_name( month, NULL), year,
               ra_sec_tenths / 36000L, (ra_sec_tenths / 600L) % 60L,
               (ra_sec_tenths / 10L) % 60L, ra_sec_tenths % 10L,
-              (int)dec, 60. * (fabs( dec) - floor( fabs( dec))), dist,
+              (dec < 0. ? '-' : '+'), dec_hundredths / 6000L,
+              (dec_hundredths / 100L) % 60L, dec_hundredths % 100L, dist,
               asteroid_loc[3], mag, elong * 180. / PI);
       if( i % 24 == 0)
          printf( "                  RA             dec     dist    radius  mag\n");
-- 
2.43.0


From 6d4e5dacf9b916c19ce10fe10abcd7bf2f00f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 145/187] fix: 'astephem' used unset memory when looking for
 objects that aren't in the file

---
 astephem.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/astephem.cpp b/astephem.cpp
index 32fd144..78110f5 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -78,9 +78,11 @@ static int find_astorb_rec( FILE *ifile, char *obj_name, char *buff)
    if( sscanf( obj_name, "%d%n", &ast_number, &n_bytes) == 1)
       if( obj_name[n_bytes] == '\0')
          {
-         fseek( ifile, (long)(ast_number - 1) * ASTORB_RECORD_LEN, SEEK_SET);
+         if( fseek( ifile, (long)(ast_number - 1) * ASTORB_RECORD_LEN, SEEK_SET))
+            return( -1);
          return( fgets( buff, 300, ifile) ? 0 : -1);
          }
+   *buff = '\0';
    fseek( ifile, 0L, SEEK_END);
    n_recs = ftell( ifile) / ASTORB_RECORD_LEN;
    for( step = 0x8000000; step; step >>= 1)
@@ -89,13 +91,13 @@ static int find_astorb_rec( FILE *ifile, char *obj_name, char *buff)
          fseek( ifile, (loc + step) * ASTORB_RECORD_LEN, SEEK_SET);
          if( !fgets( buff, 300, ifile))
             return( -2);
-         if( buff[5] != ' ' || memcmp( buff + 7, obj_name, 6) < 0)
+         if( buff[5] != ' ' || strncmp( buff + 7, obj_name, 6) < 0)
             loc += step;
          buff[40] = '\0';
          }
    fseek( ifile, loc * ASTORB_RECORD_LEN, SEEK_SET);
    strcat( obj_name, " ");
-   while( memcmp( buff + 7, obj_name, strlen( obj_name)))
+   while( strlen( buff) < 7 || strncmp( buff + 7, obj_name, strlen( obj_name)))
       if( !fgets( buff, 300, ifile))
          return( -1);
   return( 0);
@@ -128,7 +130,7 @@ int main( const int argc, const char **argv)
          switch( argv[i][1])
             {
             case 'o':
-               strlcpy_error( object_name, argv[i] + 2);
+               strlcpy_err( object_name, argv[i] + 2, sizeof( object_name) - 1);
                break;
             case 't':
                {
-- 
2.43.0


From 3d36c85f0e477cb2efb7275ccdd4d092b82cc648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 146/187] fix: 'astcheck' stopped if another instance had just
 begun to write a .chk file

---
 astcheck.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/astcheck.cpp b/astcheck.cpp
index 43e5cca..0bf8b67 100644
--- a/astcheck.cpp
+++ b/astcheck.cpp
@@ -329,13 +329,9 @@ static AST_DATA *get_cached_day_data( const int ijd)
    ifile = get_file_from_path( filename, "rb");
    if( ifile)
       {
-      if( !fread( header, HEADER_SIZE, sizeof( int), ifile))
-         {
-         printf( "Error reading header data in '%s'\n", filename);
-         exit( -2);
-         }
-      if( header[0] == magic_version_number &&
-                      header[1] == sof_checksum && header[2] == n_asteroids)
+      if( fread( header, sizeof( int32_t), HEADER_SIZE, ifile) == HEADER_SIZE
+                      && header[0] == magic_version_number
+                      && header[1] == sof_checksum && header[2] == n_asteroids)
          {
          fseek( ifile, 0L, SEEK_END);
          if( ftell( ifile) == (n_asteroids + HEADER_SIZE) * 4L)
-- 
2.43.0


From c0b78456d378563b421b3c1d3b6e4984b519a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 147/187] fix: 'astephem' truncated some of the records it
 found

---
 astephem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/astephem.cpp b/astephem.cpp
index 78110f5..a0b507b 100644
--- a/astephem.cpp
+++ b/astephem.cpp
@@ -93,7 +93,6 @@ static int find_astorb_rec( FILE *ifile, char *obj_name, char *buff)
             return( -2);
          if( buff[5] != ' ' || strncmp( buff + 7, obj_name, 6) < 0)
             loc += step;
-         buff[40] = '\0';
          }
    fseek( ifile, loc * ASTORB_RECORD_LEN, SEEK_SET);
    strcat( obj_name, " ");
-- 
2.43.0


From 06b91d266cb94a85ab7301283eaee87a48821149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 148/187] fix: 'relativi' ran forever when its input ended

---
 relativi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relativi.cpp b/relativi.cpp
index 82b5d09..92cd5dc 100644
--- a/relativi.cpp
+++ b/relativi.cpp
@@ -287,7 +287,7 @@ int main( const int argc, const char **argv)
       return( -1);
       }
    show_elems( &elem);
-   while( (c = _getch( )) != 27)
+   while( (c = _getch( )) != 27 && c != EOF)
       {
       if( c >= 'a')
          {
-- 
2.43.0


From f217cf7f61026a4a4f3f2ee63488a2934af6f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 149/187] fix: 'transit' read outside its tables for planet
 numbers out of range

---
 transit.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transit.cpp b/transit.cpp
index 2b19752..894cc21 100644
--- a/transit.cpp
+++ b/transit.cpp
@@ -107,6 +107,12 @@ int main( const int argc, const char **argv)
       printf( "'transit' needs two planet numbers and a starting year on the command line\n");
       return( -1);
       }
+   if( planet1 < 1 || planet1 > 8 || planet2 < 1 || planet2 > 8
+                              || planet1 == planet2)
+      {
+      fprintf( stderr, "The planets must be two different numbers from 1 to 8\n");
+      return( -1);
+      }
    assert( ifile);
    assert( buff);
          /* assume planet1 = outer planet,  planet2 = inner */
-- 
2.43.0


From a3fb00fd5096e34dae00b48e0ed3e642513a5af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 150/187] fix: the 'spline' test program read outside its table
 for orders out of range

---
 spline.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spline.cpp b/spline.cpp
index 38b1954..c464527 100644
--- a/spline.cpp
+++ b/spline.cpp
@@ -235,6 +235,11 @@ int main( const int argc, const char **argv)
                break;
             case 'o':
                sscanf( argv[i] + 2, "%d,%d,%d", &order1, &order2, &order_step);
+               if( order1 < 1 || order2 > NPTS || order_step < 1)
+                  {
+                  fprintf( stderr, "Orders must be from 1 to %d,  in steps of 1 or more\n", NPTS);
+                  return( -1);
+                  }
                break;
             }
    show_explanation( );
-- 
2.43.0


From e916ec3c229a404ed73092f8927579d23493045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 151/187] fix: 'mpc2sof' passed a null pointer to fwrite if
 there were no orbits to write

---
 mpc2sof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc2sof.cpp b/mpc2sof.cpp
index 056df81..3f4c2db 100644
--- a/mpc2sof.cpp
+++ b/mpc2sof.cpp
@@ -218,7 +218,7 @@ int main( const int argc, const char **argv)
             }
       fclose( ifile);
       }
-   n_written = fwrite( obuff, reclen, n_out, ofile);
+   n_written = (n_out ? fwrite( obuff, reclen, n_out, ofile) : 0);
    assert( n_written == n_out);
    free( obuff);
    fclose( ofile);
-- 
2.43.0


From b311d8c1eacb4614e7fc34426a6fa0afd805b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 152/187] fix: 'phases' crashed when run without a year

---
 phases.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phases.cpp b/phases.cpp
index f3dbffc..95d6558 100644
--- a/phases.cpp
+++ b/phases.cpp
@@ -82,6 +82,11 @@ int main( const int argc, const char **argv)
    char *vsop_tbuff, FAR *vsop_data;
    time_t curr_time = time( NULL);
 
+   if( argc < 2)
+      {
+      printf( "'phases' needs a starting year on the command line\n");
+      return( -1);
+      }
    vsop_file = fopen( "vsop.bin", "rb");
    if( !vsop_file)
       {
-- 
2.43.0


From 4b7c1ec63fd9885529d1d2e3c7d4247b711e9b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 153/187] fix: 'moidtest -i' wrote past its array if the file
 ended with a line without elements

---
 moidtest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moidtest.cpp b/moidtest.cpp
index c221bf2..fa80f9f 100644
--- a/moidtest.cpp
+++ b/moidtest.cpp
@@ -48,7 +48,7 @@ static int run_intraobject_check( const char *header, FILE *ifile)
       if( !extract_sof_data( &telem, buff, header))
          n_objects++;
    printf( "%d objects\n", n_objects);
-   elem = (ELEMENTS *)calloc( n_objects, sizeof( ELEMENTS));
+   elem = (ELEMENTS *)calloc( n_objects + 1, sizeof( ELEMENTS));
    fseek( ifile, loc, SEEK_SET);
    n_objects = 0;
    while( fgets( buff, sizeof( buff), ifile))
-- 
2.43.0


From 33969bd179421b97a54ebaf3f2d904404fc04611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 154/187] fix: tdt_minus_utc overflowed an int for dates
 millions of years ahead

---
 delta_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index 706f7a6..b5130c1 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -453,7 +453,7 @@ double DLL_FUNC td_minus_utc( const double jd_utc)
          else                /* in second half of the year */
             low = july_1;
          return( tdt_minus_tai + floor( td_minus_ut( 2400000.5 +
-                        (double)( low + high) * .5) + .5 - tdt_minus_tai));
+                        ((double)low + (double)high) * .5) + .5 - tdt_minus_tai));
          }
       for( int i = n_leap_seconds - 1; i >= 0; i--)
          if( imjd_utc - utc0 >= (int)leap_intervals[i])
-- 
2.43.0


From 3149697d451f8ae56e1016c814984e847e6b2e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 155/187] fix: 'jevent' wrote past its array when asked for a
 huge or negative number of days

---
 jevent.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jevent.cpp b/jevent.cpp
index 9b2b197..8809410 100644
--- a/jevent.cpp
+++ b/jevent.cpp
@@ -291,6 +291,11 @@ int main( int argc, char **argv)
                break;
             case 'd': case 'D':
                n_days = (unsigned)atoi( argv[i] + 2);
+               if( n_days > 10000000)
+                  {
+                  fprintf( stderr, "The number of days must be from 0 to ten million\n");
+                  return( -1);
+                  }
                break;
             case 'f': case 'F':
                ofile = fopen( argv[i] + 2, "wb");
-- 
2.43.0


From 6761f25ee6c815482375548da43a3b0a105fa364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 156/187] fix: 'tables' accepted months that don't exist

---
 tables.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tables.cpp b/tables.cpp
index 1927dd2..23ba6b3 100644
--- a/tables.cpp
+++ b/tables.cpp
@@ -108,6 +108,11 @@ int main( int argc, char **argv)
 
    if( argc > 2)        /* month specified,  rather than "entire year" */
       month_start = month_end = atoi( argv[2]);
+   if( month_start < 1 || month_end > 12)
+      {
+      printf( "The month must be from 1 to 12\n");
+      return( -1);
+      }
 
    printf( "       Sun          Moon\n");
    printf( "Day  Rise Set     Rise Set\n");
-- 
2.43.0


From b0630db8b6cddaade6dbf100a7fe2403f88bf812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 157/187] fix: 'persian' overflowed for huge ranges of years

---
 persian.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/persian.cpp b/persian.cpp
index 53d585c..dbb7a99 100644
--- a/persian.cpp
+++ b/persian.cpp
@@ -181,7 +181,8 @@ int main( int argc, const char **argv)
       {
       long y1 = atol( argv[1]);
       long y2 = atol( argv[2]);
-      long *jds = (y2 <= y1 ? NULL :
+      const long max_yr = 1000000L;
+      long *jds = (y1 < -max_yr || y2 > max_yr || y2 <= y1 ? NULL :
                      (long *)calloc( (size_t)(y2 - y1), sizeof( long)));
       long offset, max_year = -100000;
       long const1 = atol( argv[3]), const2 = 10000L;
@@ -198,6 +199,12 @@ int main( int argc, const char **argv)
          }
       else if( argc == 5)
          const2 = atol( argv[4]);
+      if( labs( const1) > max_yr || const2 > max_yr)
+         {
+         printf( "Leap years and cycles are limited to %ld\n", max_yr);
+         free( jds);
+         exit( 0);
+         }
       for( year = y1; year < y2; year++)
          {
          long greg_year = year + year0;
-- 
2.43.0


From 864ed0ba8d9c1cd524111b54e1473b6bd4bfcfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 158/187] fix: full_ctime( ) overflowed for dates too large to
 be dates

---
 miscell.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/miscell.cpp b/miscell.cpp
index 3e7c8bc..eb53a1a 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -39,6 +39,8 @@ Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
 
 static const double pi = 3.1415926535897932384626433832795028841971693993751058209749445923;
 static const long double j2000 = 2451545.0;
+static const long double max_t2k = (LONG_MAX > 2147483647L ? 1e+15 : 2e+9);
+                /* avoids overflows for dates that aren't really dates */
 
 /* It's embarrassingly common to find out that,  after roundoff errors,
    you're attempting to take the arccosine or arcsine of +/- 1.0000001,
@@ -370,6 +372,10 @@ void DLL_FUNC full_ctimel( char *buff, long double t2k, const int format)
       }
 
    t2k += .5;
+   if( !(t2k > -max_t2k))     /* includes NaNs */
+      t2k = -max_t2k;
+   if( t2k > max_t2k)
+      t2k = max_t2k;
    int_t2k = (long)floorl( t2k);
    day_of_week = (int_t2k + 6) % 7;
    if( day_of_week < 0)    /* keep 0 <= day_of_week < 7: */
-- 
2.43.0


From d5c5226f6bbacac5bf0206c66d7d985d70de4b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 159/187] fix: 'phases' ran forever for years beyond any in
 which there were phases

---
 phases.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phases.cpp b/phases.cpp
index 95d6558..815bd57 100644
--- a/phases.cpp
+++ b/phases.cpp
@@ -134,6 +134,11 @@ int main( const int argc, const char **argv)
             default:
                break;
             }
+   if( !(fabs( atof( argv[1])) < 100000. && fabs( max_date) < 100000. * 365.25))
+      {
+      printf( "Years must be between -100000 and 100000\n");
+      return( -1);
+      }
    t0 = t = j2000 + 365.25 * (atof( argv[1]) - 2000.);
    k = floor( (atof( argv[1]) - 2000.) * 12.3685);
    if( data_file)
-- 
2.43.0


From 2f78961d6b02de1eda31784fe39b96683a47e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 160/187] fix: 'themis' overflowed for damaged stop times

---
 themis.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/themis.cpp b/themis.cpp
index c35c6f0..bbb8547 100644
--- a/themis.cpp
+++ b/themis.cpp
@@ -18,6 +18,7 @@ used to concatenate Themis TLE sets.            */
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <math.h>
 #include "watdefs.h"
 #include "date.h"
 
@@ -104,6 +105,7 @@ int main( const int argc, const char **argv)
 
             assert( jd_start > MIN_JD);
             assert( jd_end > MIN_JD);
+            assert( fabs( jd_end - jd_start) < 1000000.);
             assert( norad_id);
             if( norad_id >= 30580 && norad_id <= 30582)
                intl_letter = 'A' + norad_id - 30580;
-- 
2.43.0


From 6520d87a3b6da02cc26131c944eb4a0e07bb0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 161/187] fix: 'persian' ran forever or overflowed for years in
 the millions

---
 persian.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/persian.cpp b/persian.cpp
index dbb7a99..1060ea3 100644
--- a/persian.cpp
+++ b/persian.cpp
@@ -100,6 +100,11 @@ int main( int argc, const char **argv)
       printf( "'persian' needs a year,  or a range of years,  on the command line\n");
       return( -1);
       }
+   if( year < -100000L || year > 100000L)
+      {
+      printf( "Years must be between -100000 and 100000\n");
+      return( -1);
+      }
    for( i = 3; i < argc; i++)
       {
       if( argv[i][0] == '-')
-- 
2.43.0


From b75d2cfbfe55a456410e90257d7542a1f910653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:14 +0000
Subject: [PATCH 162/187] fix: 'adestest -m' overwrote the observer's position
 on second lines

---
 adestest.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/adestest.cpp b/adestest.cpp
index dd7ffd6..5fd1588 100644
--- a/adestest.cpp
+++ b/adestest.cpp
@@ -87,12 +87,15 @@ int main( const int argc, const char **argv)
             {
             int ra_format, dec_format;
             double ra_prec, dec_prec;
+                     /* second lines of two-line observations give the */
+                     /* observer's position where the RA/dec would be */
+            const bool is_second_line = (buff[14] && strchr( "rsv", buff[14]));
             const double PI = 3.1415926535897932384626433832795028841971693993751058209749445923;
 
             get_ra_dec_from_mpc_report( buff, &ra_format, &ra, &ra_prec,
                                              &dec_format, &dec, &dec_prec);
 
-            if( show_data)
+            if( show_data && !is_second_line)
                printf( "MJD %f  RA %f  dec %f\n", jd - 2400000.5, ra, dec);
             if( make_mpc80)
                {                 /* switch date, RA, dec to MPC80 format */
@@ -103,10 +106,13 @@ int main( const int argc, const char **argv)
                format |= FULL_CTIME_6_PLACES;
                full_ctime( tbuff, jd, format);
                memcpy( buff + 15, tbuff, 17);
-               output_angle_to_buff( tbuff, ra * 12. / PI, 3);
-               memcpy( buff + 32, tbuff, 12);
-               output_signed_angle_to_buff( tbuff, dec * 180. / PI, 2);
-               memcpy( buff + 44, tbuff, 12);
+               if( !is_second_line)
+                  {
+                  output_angle_to_buff( tbuff, ra * 12. / PI, 3);
+                  memcpy( buff + 32, tbuff, 12);
+                  output_signed_angle_to_buff( tbuff, dec * 180. / PI, 2);
+                  memcpy( buff + 44, tbuff, 12);
+                  }
                }
             }
          }
-- 
2.43.0


From 799b01a66a9407b73dada34acdd6a544936f4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 163/187] fix: 'csv2ades' cut correlations given with an
 exponent in mid-number

---
 csv2ades.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csv2ades.c b/csv2ades.c
index e9a9bfd..8a5685d 100644
--- a/csv2ades.c
+++ b/csv2ades.c
@@ -125,7 +125,7 @@ static void csv_to_ades( const char *ibuff, const char *header,
       printf( "    <dec>%.9f</dec>\n",         atof( get_csv( tbuff, ibuff, header, "dec,", 99)));
       printf( "    <rmsRA>%.5f</rmsRA>\n",     atof( get_csv( tbuff, ibuff, header, "ra_error_random,", 99)) / 1000.);
       printf( "    <rmsDec>%.5f</rmsDec>\n",   atof( get_csv( tbuff, ibuff, header, "dec_error_random,", 99)) / 1000.);
-      printf( "    <rmsCorr>%s</rmsCorr>\n", get_csv( tbuff, ibuff, header, "ra_dec_correlation_random,", 10));
+      printf( "    <rmsCorr>%.10f</rmsCorr>\n", atof( get_csv( tbuff, ibuff, header, "ra_dec_correlation_random,", 99)));
       printf( "    <astCat>Gaia3</astCat>\n");
       if( strstr( header, "g_mag,"))   /* FPR doesn't have magnitude data */
          {
-- 
2.43.0


From 7908502f333cc60ca15ff5f83a56254f96cf4e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 164/187] fix: 'adestest -m' wrote right ascensions just under
 360 degrees as 24 hours

---
 adestest.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adestest.cpp b/adestest.cpp
index 5fd1588..eb1cc08 100644
--- a/adestest.cpp
+++ b/adestest.cpp
@@ -109,6 +109,8 @@ int main( const int argc, const char **argv)
                if( !is_second_line)
                   {
                   output_angle_to_buff( tbuff, ra * 12. / PI, 3);
+                  if( !memcmp( tbuff, "24", 2))    /* rounded up to 24h */
+                     memcpy( tbuff, "00", 2);
                   memcpy( buff + 32, tbuff, 12);
                   output_signed_angle_to_buff( tbuff, dec * 180. / PI, 2);
                   memcpy( buff + 44, tbuff, 12);
-- 
2.43.0


From a0c0e224815720f03425cc8102e74386463d36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 165/187] fix: regions and site names were cut short at their
 first non-ASCII character

---
 mpc_code.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 680dead..f4ae5cf 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -446,7 +446,7 @@ int extract_region_data_for_lat_lon( FILE *ifile, char *buff,
             if( d_lat1 * d_lat2 < 0.)
                {
                strcpy( buff, tbuff + 40);
-               while( buff[i] >= ' ')
+               while( (unsigned char)buff[i] >= ' ')
                   i++;
                buff[i] = '\0';   /* remove trailing CR/LF */
                }
@@ -903,7 +903,7 @@ int main( const int argc, const char **argv)
          code.lat *= 180. / PI;
          code.lon *= 180. / PI;
          *region = '\0';
-         for( i = 0; buff[i] >= ' '; i++)
+         for( i = 0; (unsigned char)buff[i] >= ' '; i++)
             ;
          buff[i] = '\0';
          if( code.planet == 3)
@@ -955,7 +955,7 @@ int main( const int argc, const char **argv)
          if( make_kml && code.planet == 3 && (code.lat || code.lon))
             {
             i = 0;
-            while( code.name[i] >= ' ')
+            while( (unsigned char)code.name[i] >= ' ')
                i++;
             printf( " <Placemark>\n");
             printf( "    <name>%.4s</name>\n", code.code);
-- 
2.43.0


From 9ac48ab0475c0118265d5f36a23e420362623eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 166/187] fix: 'mpc_code' -k and -g overran the line buffer
 when a site's name held many ampersands

---
 mpc_code.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index f4ae5cf..303744d 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -830,7 +830,8 @@ int main( const int argc, const char **argv)
 {
    FILE *ifile;
    const char *ifilename = "ObsCodes.htm";
-   char buff[200];
+   const int max_line_len = 200;
+   char buff[1000];     /* room for each '&' in a line to become '&amp;' */
    mpc_code_t code;
    bool google_map_links = false, dump_comments = false;
    bool make_kml = false;
@@ -894,7 +895,7 @@ int main( const int argc, const char **argv)
       }
    if( !make_kml)
       printf( "%s\n", header + google_offset);
-   while( fgets( buff, sizeof( buff), ifile))
+   while( fgets( buff, max_line_len, ifile))
       if( get_mpc_code_info( &code, buff) != -1 || !get_xxx_location_info( &code, buff))
          {
          char region[100], obuff[200];
-- 
2.43.0


From 61563c2f1656385c09560469ff07bb9eb334c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 167/187] fix: 'parallax' aborted for a site on a last line
 without a line feed

---
 parallax.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parallax.cpp b/parallax.cpp
index c3e6241..13fb72a 100644
--- a/parallax.cpp
+++ b/parallax.cpp
@@ -67,22 +67,21 @@ static int get_mpc_obscode_data( mpc_code_t *loc, const char *mpc_code, int pass
          if( !memcmp( buff, mpc_code, 3) && buff[3] == end_char)
             {
             const int err_code = get_mpc_code_info( loc, buff);
-            char *tptr;
+            char *tptr = strchr( buff, 10);
 
+            if( tptr)            /* remove trailing LF */
+               *tptr = '\0';
             if( 3 == err_code)
                {
                if( loc->lon > PI)
                   loc->lon -= PI + PI;
-               printf( "%s !%+014.9f  %+013.9f %9.3f   %s%s", mpc_code,
+               printf( "%s !%+014.9f  %+013.9f %9.3f   %s\n%s\n", mpc_code,
                      loc->lon * 180. / PI,
                      loc->lat * 180. / PI,
                      loc->alt, loc->name, buff);
                }
             else if( -1 != err_code)
                printf( "%s\n", loc->name);
-            tptr = strchr( buff, 10);
-            assert( tptr);       /* remove trailing LF */
-            *tptr = '\0';
 #ifdef _WIN32                /* MS is different. */
             loc->name = _strdup( loc->name);
 #else
-- 
2.43.0


From 219d30403ff9b48848bfb86774b035c39afd940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:02 +0000
Subject: [PATCH 168/187] fix: names in ADES PSV data were cut short at their
 first non-ASCII character

---
 ades2mpc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ades2mpc.cpp b/ades2mpc.cpp
index c79c17c..9e6f683 100644
--- a/ades2mpc.cpp
+++ b/ades2mpc.cpp
@@ -431,7 +431,7 @@ static inline int place_value( char *optr, const char *iptr, const size_t ilen,
 
 static const char *skip_whitespace( const char *tptr)
 {
-   while( *tptr && isspace( *tptr))
+   while( *tptr && isspace( (unsigned char)*tptr))
       tptr++;
    return( tptr);
 }
@@ -945,7 +945,7 @@ static int process_psv_tag( ades2mpc_t *cptr, char *obuff, const int itag,
    size_t len = 0;
 
    ibuff = skip_whitespace( ibuff);
-   while( ibuff[len] != '|' && ibuff[len] >= ' ')
+   while( ibuff[len] != '|' && (unsigned char)ibuff[len] >= ' ')
       len++;
    while( len && ibuff[len - 1] == ' ')
       len--;            /* drop trailing spaces */
@@ -1114,7 +1114,7 @@ static int process_psv_header( ades2mpc_t *cptr, char *obuff, const char *ibuff)
          cptr->depth = 3;
          ibuff = skip_whitespace( ibuff + i);
          i = 0;
-         while( ibuff[i] >= ' ')
+         while( (unsigned char)ibuff[i] >= ' ')
             i++;
          rval = process_ades_tag( obuff, cptr, itag, ibuff, i);
          cptr->depth = 0;
-- 
2.43.0


From 632deca79c6abd45bec776484f06cccfb8ee84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:20 +0000
Subject: [PATCH 169/187] fix: event names in 'calendar' were cut short at
 their first non-ASCII character

---
 calendar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calendar.cpp b/calendar.cpp
index 852677c..ac8fb1f 100644
--- a/calendar.cpp
+++ b/calendar.cpp
@@ -274,7 +274,7 @@ static char **grab_dates( const int month, const int year)
                   n_days++;
                   }
                make_postscript_substitutions( buff);
-               for( i = 0; buff[i] >= ' '; i++)
+               for( i = 0; (unsigned char)buff[i] >= ' '; i++)
                   ;
                buff[i] = '\0';
                for( j = 0; j < n_days; j++)
-- 
2.43.0


From d5c5c6dd3deb2e234308470ee256a091e3ee6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 170/187] fix: 'calendar' overran its buffers for events with
 parentheses or on many days

---
 calendar.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/calendar.cpp b/calendar.cpp
index ac8fb1f..bedc854 100644
--- a/calendar.cpp
+++ b/calendar.cpp
@@ -249,13 +249,14 @@ static char **grab_dates( const int month, const int year)
 
       if( dates_file)
          {
-         char buff[80];
+         const int max_line_len = 80;
+         char buff[320];      /* '(' and ')' become four bytes */
 
-         while( fgets( buff, sizeof( buff), dates_file))
+         while( fgets( buff, max_line_len, dates_file))
             if( !memcmp( months[month - 1], buff, 3))
                {
                unsigned loc = 7, n_days = 1;
-               unsigned days[10];
+               unsigned days[40];      /* as many as a line can hold */
 
                days[0] = (unsigned)atoi( buff + 3);
                if( buff[6] == '/')     /* See 'dates.txt' for an explanation */
@@ -269,7 +270,8 @@ static char **grab_dates( const int month, const int year)
                   {
                   int bytes_scanned;
 
-                  sscanf( buff + loc, "%u%n", &days[n_days], &bytes_scanned);
+                  if( sscanf( buff + loc, "%u%n", &days[n_days], &bytes_scanned) != 1)
+                     break;
                   loc += (unsigned)bytes_scanned + 1;
                   n_days++;
                   }
-- 
2.43.0


From 3258a15da22e07b6c85de0bfdb1113afb76a82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 171/187] fix: add_off: terminate the ADES time string, so that
 no leftover digits are read as part of it

---
 add_off.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/add_off.c b/add_off.c
index 4658aa7..1f73052 100644
--- a/add_off.c
+++ b/add_off.c
@@ -81,8 +81,9 @@ static double get_sat_obs_jd( const char *buff)
       size_t i = 0;
 
       ades_time += 9;
-      while( *ades_time != 'Z' && *ades_time && i < sizeof( tbuff))
+      while( *ades_time != 'Z' && *ades_time && i < sizeof( tbuff) - 1)
          tbuff[i++] = *ades_time++;
+      tbuff[i] = '\0';
       jd = get_time_from_string( 0., tbuff, FULL_CTIME_YMD, NULL);
       }
 
-- 
2.43.0


From b4d9404fe5ab420fe41ab65a4a3b50ebeaaec14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 172/187] fix: add_off: don't write a made-up offset for an
 observation whose position wasn't found

---
 add_off.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/add_off.c b/add_off.c
index 1f73052..2cbb0cd 100644
--- a/add_off.c
+++ b/add_off.c
@@ -228,9 +228,9 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
       printf( "Either it's not an MPC code,  or it's not one of the spacecraft\n");
       printf( "that this software knows about.  Check the 'add_off.c' source\n");
       printf( "code,  and/or contact the author.\n");
-      for( i = 0; i < n_offsets; i++)
+      for( i = n_offsets - 1; i >= 0; i--)
          if( !strcmp( offsets[i].mpc_code, offsets[0].mpc_code))
-            offsets[i].xyz[0] = -0.1;     /* mark as "don't try again" */
+            offsets[i].mpc_code[0] = '\0';    /* mark as "don't try again" */
       return( 0);
       }
 #ifndef _WIN32
@@ -324,7 +324,7 @@ static int set_offsets( offset_t *offsets, const int n_offsets)
       }
          /* If some or all obs weren't set,  zero their MPC codes.  That */
          /* will keep us from making repeated failed requests for them.  */
-   for( i--; i > 0; i--)
+   for( i--; i >= 0; i--)
       if( !strcmp( offsets[i].mpc_code, offsets[0].mpc_code))
          if( !offsets[i].xyz[0])
             {
-- 
2.43.0


From a1de15be81e2c9a43cc0c09b935a941234b576b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 173/187] fix: add_off -d aborted when the original offsets
 were far from the new ones

---
 add_off.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/add_off.c b/add_off.c
index 2cbb0cd..f363ae1 100644
--- a/add_off.c
+++ b/add_off.c
@@ -486,7 +486,7 @@ int process_file( const char *filename, FILE *ofile)
                }
             else        /* output punched-card data */
                {
-               char vel_buff[80];
+               char vel_buff[120];
 
                snprintf_err( vel_buff, sizeof( vel_buff),
                         "COM vel (km/s) %.16s%+13.7f%+13.7f%+13.7f %.3s\n",
-- 
2.43.0


From 74e468dd8021f1393c1dae1e9e1db7d28e2fe69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 174/187] fix: add_off: a spacecraft's offsets could be given
 to a later ground-based ADES observation

---
 add_off.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/add_off.c b/add_off.c
index f363ae1..141aa49 100644
--- a/add_off.c
+++ b/add_off.c
@@ -507,6 +507,7 @@ int process_file( const char *filename, FILE *ofile)
                }
             }
          fprintf( ofile, "%s", buff);
+         *mpc_code_from_ades = '\0';
          }
    fclose( ifile);
    free( offsets);
-- 
2.43.0


From 636c692cf1d720c3fa5fcb21fd7166ba315301b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:44 +0000
Subject: [PATCH 175/187] fix: inverse colour conversions failed to converge
 over part of their range

---
 colors.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/colors.cpp b/colors.cpp
index f92669e..a993130 100644
--- a/colors.cpp
+++ b/colors.cpp
@@ -90,6 +90,8 @@ static double compute_inverse_color_polynomial( const double ival,
       {
       rval = (ival - color_low) / ( color_high - color_low);
       rval += rval * (rval -.5) * (rval - 1.);
+      if( max_iterations & 1)       /* one end of the bracket may stay put; */
+         rval = .5;                 /* bisecting ensures convergence        */
       rval = low_limit + (high_limit - low_limit) * rval;
       color_rval = compute_color_polynomial( rval, coeffs,
                      ilow_limit, ihigh_limit);
-- 
2.43.0


From 087af6a3380b623975bc7a27a303a585980b9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:44 +0000
Subject: [PATCH 176/187] fix: Tycho to Johnson colour correction was dropped
 at B-V(Tycho) = 1.8

---
 colors.cpp  | 4 ++--
 colors2.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/colors.cpp b/colors.cpp
index a993130..e2f8bfe 100644
--- a/colors.cpp
+++ b/colors.cpp
@@ -186,7 +186,7 @@ double johnson_b_minus_v_from_tycho_b_minus_v( const double b_v_t)
       delta = .046 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = .046 - .054 * (b_v_t - .5) / .9;
-   else if( b_v_t < 1.8)
+   else
       delta = -.008 - .024 * (b_v_t - 1.4) / .4;
    return( .85 * b_v_t + delta);
 }
@@ -210,7 +210,7 @@ double johnson_v_from_tycho_b_minus_v( const double b_v_t, const double tycho_v)
       delta = -.005 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = -.005;
-   else if( b_v_t < 1.8)
+   else
       delta = -.005 - .010 * (b_v_t - 1.4) / .4;
    return( tycho_v - .09 * b_v_t + delta);
 }
diff --git a/colors2.cpp b/colors2.cpp
index 3d723df..d07c917 100644
--- a/colors2.cpp
+++ b/colors2.cpp
@@ -144,7 +144,7 @@ double johnson_b_minus_v_from_tycho( double b_v_t)
       delta = .046 * (b_v_t - .1) / .4;
    else if( b_v_t < 1.4)
       delta = .046 - .054 * (b_v_t - .5) / .9;
-   else if( b_v_t < 1.8)
+   else
       delta = -.008 - .024 * (b_v_t - 1.4) / .4;
    return( .85 * b_v_t + delta);
 }
-- 
2.43.0


From 6994401d6bad1e11207870e825aad64b02921ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 177/187] fix: landgraf: integer divisions spoiled Schlyter's
 near-parabolic coefficients

---
 landgraf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/landgraf.cpp b/landgraf.cpp
index f145e63..1dd8a23 100644
--- a/landgraf.cpp
+++ b/landgraf.cpp
@@ -73,9 +73,9 @@ static double paul_schlyter_soln( const double e, const double q, const double d
    const double W2 = W * W;
    const double f = (1 - e) / (1 + e);
 
-   const double a1 = (2/3) + .4 * W2;
+   const double a1 = 2./3. + .4 * W2;
    const double a2 = 7./5. + W2 * (33./35. + 37./175. * W2);
-   const double a3 = W2 * ( (432/175) + W2 * ((956/1125) + (84/1575) * W2));
+   const double a3 = W2 * (432./175. + W2 * (956./1125. + 84./1575. * W2));
 
    const double C = W2 / (1 + W2);
    const double g = f * C*C;
-- 
2.43.0


From dc6a23a81c8a249a3624454b4fc946a9156c3c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:05 +0000
Subject: [PATCH 178/187] fix: chinese: an intercalary twelfth month lost its
 length from the packed table

---
 chinese.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chinese.cpp b/chinese.cpp
index f3e7293..5d44874 100644
--- a/chinese.cpp
+++ b/chinese.cpp
@@ -101,13 +101,15 @@ static void dump_data( char *text[], const int n_found)
          const long jd = atol( text[i]);
          const int prev_month = (month + 10) % 12 + 1;
          const int prev_year = year - (prev_month == 12);
+         const int is_intercalary = (n_found == 25 && !intercalary_month
+                                          && text[i + 1][8] == ' ');
 
          if( jd - prev_jd == 30L)
             if( prev_year >= year0 && prev_year < year0 + n_years)
                ydata[prev_year - year0].mask |= bitmask;
          bitmask <<= 1;
 
-         if( month == 1 && intercalary_month != 1)
+         if( month == 1 && !is_intercalary)
             {           /* it's the for-real first month of the year: */
             const long offset = jd - (year * 365L + year / 4L + 757861L);
 
@@ -116,7 +118,7 @@ static void dump_data( char *text[], const int n_found)
                ydata[year - year0].offset = (unsigned char)offset;
             }
 
-         if( n_found == 25 && !intercalary_month && text[i + 1][8] == ' ')
+         if( is_intercalary)
             {
             snprintf_err( text[i] + 31, 12, "%4di%5d\n", prev_month, prev_year);
             intercalary_month = prev_month;
-- 
2.43.0


From c16703ea599c73f2fa33fca120f6d4eca910e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 179/187] fix: load_earth_orientation_params gave the day after
 the last one as the end of the EOPs

---
 eop_prec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eop_prec.cpp b/eop_prec.cpp
index ef9c53f..3ec8250 100644
--- a/eop_prec.cpp
+++ b/eop_prec.cpp
@@ -105,8 +105,8 @@ int DLL_FUNC load_earth_orientation_params( const char *filename,
       else
          {
          file_date[0] = (int)( eop_jd0 - 2400000.499);
-         file_date[1] = file_date[0] + eop_usable;
-         file_date[2] = file_date[0] + eop_usable_nutation;
+         file_date[1] = file_date[0] + eop_usable - 1;
+         file_date[2] = file_date[0] + eop_usable_nutation - 1;
          }
       return( eop_data ? 0 : -1);
       }
-- 
2.43.0


From 717c0d9afad90c2cfdc21f4bf672b5ceb887da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:45 +0000
Subject: [PATCH 180/187] fix: prectest: partial EOPs were still in use for the
 results labelled 'without EOPs'

---
 prectest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prectest.cpp b/prectest.cpp
index f8a8f57..e3ce8f7 100644
--- a/prectest.cpp
+++ b/prectest.cpp
@@ -96,6 +96,8 @@ int main( const int argc, const char **argv)
 
    for( loop = (eop_rval ? 1 : 0); loop < 2; loop++)
       {
+      if( loop)
+         load_earth_orientation_params( NULL, NULL);
       printf( "With%s EOPs :\n", (loop ? "out" : ""));
       for( pass = 0; pass < 3; pass++)
          {
@@ -119,8 +121,6 @@ int main( const int argc, const char **argv)
          for( i = 0; i < 9; i++)            /* print out the precession matrix */
             printf( "%15.11f%s", matrix[i], (i % 3 == 2) ? "\n" : " ");
          }
-      if( !loop)
-         load_earth_orientation_params( NULL, NULL);
       }
    return( 0);
 }
-- 
2.43.0


From 2960276e2bb462d89bf1aebc83cbf2f1e69d9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 181/187] fix: integrat aborted when no orbit in its input was
 to be integrated

---
 integrat.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/integrat.cpp b/integrat.cpp
index 9c36335..eb2a836 100644
--- a/integrat.cpp
+++ b/integrat.cpp
@@ -1202,7 +1202,6 @@ int main( int argc, const char **argv)
          }
       }
 #endif
-   assert( position_cache);
    free( position_cache);
    return( 0);
 }
-- 
2.43.0


From 306afe461bd3821ad1ab236199733fcc8b4faeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 182/187] fix: integrat: with fewer objects than processes, the
 last object was output repeatedly

---
 integrat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/integrat.cpp b/integrat.cpp
index eb2a836..fadff89 100644
--- a/integrat.cpp
+++ b/integrat.cpp
@@ -1055,6 +1055,8 @@ int main( int argc, const char **argv)
          j = 0;
          while( j < process_number && fgets( buff, sizeof( buff), ifile))
             j++;
+         if( j < process_number)    /* fewer objects than processes */
+            break;
          }
 #endif
       if( update_file && asteroid_perturber_number == -1
-- 
2.43.0


From 556c8bed32fc10d0c7d6c27ce55c9b564f639750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 183/187] fix: integrat: signed overflow in the hash of a line

---
 integrat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/integrat.cpp b/integrat.cpp
index fadff89..f8d5bc2 100644
--- a/integrat.cpp
+++ b/integrat.cpp
@@ -759,8 +759,8 @@ math to integrate it all over again just to get the same result as before. */
 
 static long compute_hash( const char *buff, const char *header)
 {
-   long rval = 0;
-   const long big_prime = 2141592701L;
+   unsigned long rval = 0;
+   const unsigned long big_prime = 2141592701UL;
    size_t i, j;
    char obuff[30];
    const char *tags[] =
@@ -770,9 +770,9 @@ static long compute_hash( const char *buff, const char *header)
       {
       get_sof_element( obuff, sizeof( obuff), buff, header, tags[i]);
       for( j = 0; obuff[j]; j++)
-         rval = rval * big_prime + (long)obuff[j];
+         rval = rval * big_prime + (unsigned long)obuff[j];
       }
-   return( rval);
+   return( (long)rval);
 }
 
 static unsigned find_in_table( const long *hashes, const long hash_val)
-- 
2.43.0


From 3e33afa4f2833ce7b517679509756d55f46d6a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 184/187] fix: integrat: a step from an epoch off the cached
 grid used planet positions for another time

---
 integrat.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/integrat.cpp b/integrat.cpp
index f8d5bc2..fe197c0 100644
--- a/integrat.cpp
+++ b/integrat.cpp
@@ -434,9 +434,11 @@ static int take_step( const double jd, ELEMENTS *elems,
 
    if( fabs( step_size - position_cache[1]) < .000001)
       {
-      int cache_loc = (int)floor( (jd - position_cache[0]) / step_size + .5);
+      const double n_steps = (jd - position_cache[0]) / step_size;
+      const int cache_loc = (int)floor( n_steps + .5);
 
-      if( cache_loc >= 0 && cache_loc < position_cache_size)
+      if( cache_loc >= 0 && cache_loc < position_cache_size
+                  && fabs( n_steps - (double)cache_loc) < 1e-5)
          posn_data = position_cache + 2 + cache_loc * 6 * N_PERTURBERS * 3;
       }
 
-- 
2.43.0


From b04fdaee24a684dddd9e098f6b3a5d2ebd725e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:54 +0000
Subject: [PATCH 185/187] fix: integrat: Pluto perturbed nothing if it was the
 first object in the file

---
 integrat.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/integrat.cpp b/integrat.cpp
index fe197c0..60f7f8b 100644
--- a/integrat.cpp
+++ b/integrat.cpp
@@ -714,17 +714,17 @@ static double try_to_integrate( const char *header, char *buff, const double des
       }
    got_it = !extract_sof_data_ex( &elem, buff, header, NULL);
    assert( got_it);
-   if( !memcmp( buff, "      134340 ", 13))   /* don't let (134340) Pluto */
-      if( perturber_mask & PERTURBERS_PLUTO)    /* perturb itself! */
-         {
-         pluto_removed = 1;
-         perturber_mask ^= PERTURBERS_PLUTO;
-         }
 
    if( got_it && dest_jd != 0. && elem.epoch != 0.)
       {
       if( !position_cache)       /* gotta initialize it: */
          position_cache = make_position_cache( elem.epoch, dest_jd, stepsize);
+      if( !memcmp( buff, "      134340 ", 13))   /* don't let (134340) Pluto */
+         if( perturber_mask & PERTURBERS_PLUTO)    /* perturb itself! */
+            {
+            pluto_removed = 1;
+            perturber_mask ^= PERTURBERS_PLUTO;
+            }
       integrate_orbit( &elem, elem.epoch, dest_jd, max_err, stepsize);
       put_elem_into_sof( header, buff, &elem);
       }
-- 
2.43.0


From 25a8c5ab52f10d527c05a860e5b0eaca799db00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 186/187] fix: mpc_code: an altitude below sea level in a
 lat/lon text was silently replaced by 100 m

---
 mpc_code.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mpc_code.cpp b/mpc_code.cpp
index 303744d..c5f679c 100644
--- a/mpc_code.cpp
+++ b/mpc_code.cpp
@@ -547,7 +547,7 @@ static int extract_lat_lon( const char *buff, size_t *bytes_read, double *value)
 {
    const char *tptr = buff;
    int rval = GOT_NOTHING, nbytes, n_fields;
-   bool is_negative = false;
+   bool is_negative = false, below_sea_level = false;
    const char *compass = "nNeEsSwW";
    char compass_byte = 0;
 
@@ -562,6 +562,13 @@ static int extract_lat_lon( const char *buff, size_t *bytes_read, double *value)
       tptr += 3;
       if( *tptr == '.')
          tptr++;
+      while( *tptr == ' ')
+         tptr++;
+      }
+   if( !compass_byte && *tptr == '-')  /* possible altitude below sea level */
+      {
+      below_sea_level = true;
+      tptr++;
       }
    *value = _get_angle( tptr, &nbytes, &n_fields);
    tptr += nbytes;
@@ -584,7 +591,9 @@ static int extract_lat_lon( const char *buff, size_t *bytes_read, double *value)
          }
       }
 /* printf( "From '%s',  got %d, value %f\n", buff, (int)( tptr - buff), *value); */
-   if( n_fields && rval == GOT_NOTHING)
+   if( rval == GOT_ALT && below_sea_level)
+      is_negative = true;
+   if( n_fields && rval == GOT_NOTHING && !below_sea_level)
       {
       if( !compass_byte && *tptr && strchr( compass, *tptr))
          {                 /* compass sign after the angle */
-- 
2.43.0


From 126766f01d04b46db4eedcd0076d492d3c6fa4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:43 +0000
Subject: [PATCH 187/187] fix: mpcorb2 crashed if given a record number when
 mpcorb.dat was missing

---
 mpcorb2.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpcorb2.cpp b/mpcorb2.cpp
index ffa57f9..b01eb77 100644
--- a/mpcorb2.cpp
+++ b/mpcorb2.cpp
@@ -101,7 +101,10 @@ int main( const int argc, const char **argv)
       printf( "%ld %ld %ld %ld\n", data[0], data[1], data[2], data[3]);
       }
    else
+      {
       printf( "mpcorb.dat not opened\n");
+      return( -1);
+      }
    if( argc > 1)
       {
       long rec_num = atol( argv[1]);
-- 
2.43.0

