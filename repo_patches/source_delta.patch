From 956e927cfaf67dd9977f5dab57a135dcbb9b25c4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 01/51] fix: filename of an image loaded from a single file
 given as a string

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 052f85a..2ece002 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -108,7 +108,7 @@ class Image:
             tempfilename[-1] = "SUM_" + tempfilename[-1]
             self.filename = os.path.sep.join(tempfilename)
         else:
-            self.filename = filenames[0]
+            self.filename = filenames_list[0]
 
     def _init_image_from_image(self, image: Image):
         self.data = image.data.copy()
-- 
2.43.0


From 7673b56eceb0c94b7230917bfc3414635b66a920 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 02/51] fix: initialize an Image from any Image instance,
 including micropolarizer ones

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 2ece002..0cb4847 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -29,7 +29,7 @@ class Image:
         elif type(initializer) is np.ndarray:
             self._init_image_from_data(initializer)
             self.new_data = initializer
-        elif type(initializer) is Image:
+        elif isinstance(initializer, Image):
             self._init_image_from_image(initializer)
 
     def _init_image_from_data(self, input_data: np.array) -> None:
-- 
2.43.0


From 72971a493ce57c0146c514983974bd10bffc4c13 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 03/51] fix: copies and derived images no longer share data,
 header and Stokes maps with their source

---
 micropolarray/micropol_image.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 483d9aa..324d5c8 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -90,7 +90,7 @@ class MicropolImage(Image):
                 MicropolImage.first_call = False
                 DEFAULT_ANGLES_DIC = PolarCam().angle_dic
             angle_dic = DEFAULT_ANGLES_DIC
-        self.angle_dic = angle_dic
+        self.angle_dic = dict(angle_dic)
 
         if type(initializer) is list and len(initializer) > 1:
             self._num_of_images = len(initializer)
@@ -121,16 +121,17 @@ class MicropolImage(Image):
         self.demosaiced_images = None
 
     def _import_image_parameters(self, image: MicropolImage):
-        self.data = image.data
-        self.header = image.header
-        self.angle_dic = image.angle_dic
-        self.Stokes_vec = image.Stokes_vec
+        self.header = image.header.copy()
+        self.data = image.data.copy()
+        self.angle_dic = dict(image.angle_dic)
+        self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
-        self.demosaiced_images = image.demosaiced_images
+        if image.demosaiced_images is not None:
+            self.demosaiced_images = np.array(image.demosaiced_images)
 
     # ----------------------------------------------------------------
     # -------------------- POLARIZATION PROPERTIES -------------------
@@ -901,7 +902,7 @@ class MicropolImage(Image):
             single_pols[i] = np.asarray(image, dtype=float)
         data = merge_polarizations(single_pols)
 
-        Stokes_vec = self.Stokes_vec
+        Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
             image = PILImage.fromarray(Stokes_vec[i])
             image = image.rotate(angle)
@@ -1010,7 +1011,7 @@ class MicropolImage(Image):
             newdata = self.data + second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1032,7 +1033,7 @@ class MicropolImage(Image):
             newdata = self.data - second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1054,7 +1055,7 @@ class MicropolImage(Image):
             newdata = self.data * second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1076,7 +1077,7 @@ class MicropolImage(Image):
             newdata = np.divide(self.data, second, where=second != 0.0)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
-- 
2.43.0


From 3108baa125e95e5c5bb0c34e03257b613af379a2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 04/51] fix: keep demosaiced images and Stokes maps in step
 with the data they come from

---
 micropolarray/micropol_image.py | 37 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 324d5c8..644a493 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -119,6 +119,7 @@ class MicropolImage(Image):
         self._flat_subtracted = False
         self._dark_subtracted = False
         self.demosaiced_images = None
+        self._demosaic_mode = None
 
     def _import_image_parameters(self, image: MicropolImage):
         self.header = image.header.copy()
@@ -127,6 +128,7 @@ class MicropolImage(Image):
         self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
+        self._demosaic_mode = image._demosaic_mode
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
@@ -234,6 +236,8 @@ class MicropolImage(Image):
     def _update_data_and_Stokes(self, newdata: np.ndarray = None):
         if newdata is not None:
             self.data = newdata
+            if self._is_demosaiced:
+                self.demosaiced_images = demosaic(self.data, option=self._demosaic_mode)
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
     def demodulate(
@@ -388,9 +392,9 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        self.data = self.data - dark.data
-        self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        newdata = self.data - dark.data
+        newdata = np.where(newdata >= 0, newdata, 0)  # Fix data
+        self._update_data_and_Stokes(newdata)
         self._dark_subtracted = True
         return self
 
@@ -405,7 +409,7 @@ class MicropolImage(Image):
         """
         normalized_flat = flat.data / np.mean(flat.data)
 
-        self.data = np.divide(
+        newdata = np.divide(
             self.data,
             normalized_flat,
             where=normalized_flat != 0.0,
@@ -413,7 +417,7 @@ class MicropolImage(Image):
 
         # self.data = np.where(self.data >= 0, self.data, 0)
         # self.data = np.where(self.data < 4096, self.data, 4096)
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes(newdata)
         self._flat_subtracted = True
         return self
 
@@ -816,6 +820,7 @@ class MicropolImage(Image):
         """
 
         self.demosaiced_images = demosaic(self.data, option=demosaic_mode)
+        self._demosaic_mode = demosaic_mode
         self._is_demosaiced = True
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
@@ -886,10 +891,19 @@ class MicropolImage(Image):
         newdata = merge_polarizations(congridded_pol_images)
         newimage = MicropolImage(self)
         newimage.data = newdata
-        newimage.Stokes_vec = [
-            congrid(stokes_component, [newdim_y, newdim_x])
-            for stokes_component in self.Stokes_vec
-        ]
+        if newimage._is_demosaiced:
+            newimage.demosaiced_images = np.array(
+                [
+                    congrid(demosaiced_image, [newdim_y, newdim_x])
+                    for demosaiced_image in self.demosaiced_images
+                ]
+            )
+        newimage.Stokes_vec = np.array(
+            [
+                congrid(stokes_component, [newdim_y, newdim_x])
+                for stokes_component in self.Stokes_vec
+            ]
+        )
         return newimage
 
     def rotate(self, angle: float) -> MicropolImage:
@@ -910,6 +924,11 @@ class MicropolImage(Image):
         newimage = MicropolImage(self)
         newimage.data = data
         newimage.Stokes_vec = Stokes_vec
+        if newimage._is_demosaiced:
+            for i in range(4):
+                image = PILImage.fromarray(newimage.demosaiced_images[i])
+                image = image.rotate(angle)
+                newimage.demosaiced_images[i] = np.asarray(image, dtype=float)
 
         return newimage
 
-- 
2.43.0


From 1086510870f145ad2f8ee2424b588724c55f725a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 05/51] fix: division by zero pixels no longer returns
 uninitialised memory

---
 micropolarray/image.py          | 15 +++++++++++++--
 micropolarray/micropol_image.py |  7 ++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 0cb4847..5a6602b 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -15,6 +15,17 @@ from micropolarray.processing.shift import shift
 from micropolarray.utils import _make_abs_and_create_dir, fix_data
 
 
+def _divide(dividend: np.ndarray, divisor) -> np.ndarray:
+    """Divides pixel by pixel, the result is 0 where the divisor is 0."""
+    divisor = np.asarray(divisor)
+    return np.divide(
+        dividend,
+        divisor,
+        out=np.zeros(np.broadcast(dividend, divisor).shape, dtype=float),
+        where=divisor != 0,
+    )
+
+
 class Image:
     """Basic image class. Can be initialized from a filename, a filenames list, a numpy array or another Image instance. If multiple filenames are provided, will perform the mean of them unless averageimages is False."""
 
@@ -297,7 +308,7 @@ class Image:
 
     def __truediv__(self, second) -> Image:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0)
+            newdata = _divide(self.data, second.data)
         else:
-            newdata = np.divide(self.data, second, where=second != 0)
+            newdata = _divide(self.data, second)
         return Image(newdata)
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 644a493..a8ece65 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -12,7 +12,7 @@ from astropy.io import fits
 from PIL import Image as PILImage
 
 from micropolarray.cameras import Camera, PolarCam
-from micropolarray.image import Image
+from micropolarray.image import Image, _divide
 from micropolarray.polarization_functions import AoLP, DoLP, pB
 from micropolarray.processing.chen_wan_liang_calibration import _ifov_jitcorrect
 from micropolarray.processing.congrid import congrid
@@ -412,6 +412,7 @@ class MicropolImage(Image):
         newdata = np.divide(
             self.data,
             normalized_flat,
+            out=np.array(self.data, dtype=float),
             where=normalized_flat != 0.0,
         )
 
@@ -1089,11 +1090,11 @@ class MicropolImage(Image):
 
     def __truediv__(self, second) -> MicropolImage:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0.0)
+            newdata = _divide(self.data, second.data)
             newimage = MicropolImage(self)
             newimage._update_data_and_Stokes(newdata)
         else:
-            newdata = np.divide(self.data, second, where=second != 0.0)
+            newdata = _divide(self.data, second)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
         newimage.header = self.header.copy()
-- 
2.43.0


From 567f05f5d2dfb5d3dbf0b596afc62598356996d0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 06/51] fix: apply the requested range to saved data when one
 of its bounds is 0

---
 micropolarray/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index f9bdf34..9b5ee75 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -53,7 +53,7 @@ def sigma_DN(pix_DN):
 
 
 def fix_data(data: np.array, min, max):
-    if not (min and max):
+    if (min is None) or (max is None):
         return data
     fixed_data = data.copy()
     fixed_data = np.where(fixed_data > min, fixed_data, min)
-- 
2.43.0


From 71229b3115c45dbefa5b1ae19c5af1f05150bc77 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 07/51] fix: dark subtraction no longer wraps around for
 unsigned pixel types

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index a8ece65..ce72180 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -392,7 +392,7 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        newdata = self.data - dark.data
+        newdata = np.array(self.data, dtype=float) - dark.data
         newdata = np.where(newdata >= 0, newdata, 0)  # Fix data
         self._update_data_and_Stokes(newdata)
         self._dark_subtracted = True
-- 
2.43.0


From 389022e01062136c8bcb600d6b5d37fcd67be3d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 08/51] fix: flat fielded calibration and spline demosaicing
 with current numpy

---
 micropolarray/processing/demodulation.py | 2 +-
 micropolarray/processing/demosaic.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d97a0ff..bbada28 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -371,7 +371,7 @@ def calculate_demodulation_tensor(
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = np.array(file[0].data, dtype=np.float)
+            flat = np.array(file[0].data, dtype=float)
         if correct_ifov:
             flat = _ifov_jitcorrect(flat, *flat.shape)
         flat = micropolarray_rebin(flat, binning)
diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 841699e..2232981 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -144,7 +144,7 @@ def demosaic(image_data, option="adjacent"):
     elif option == "spline":
         single_pol_subimages = np.array(
             [image_data[j::2, i::2] for j in range(2) for i in range(2)],
-            dtype=np.float,
+            dtype=float,
         )
         demo_images = [
             congrid(
-- 
2.43.0


From 46e4e10f5398a6239db8376559d74734844fa1ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 09/51] fix: hot pixel detection called a missing method

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 0d64869..8989a1a 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -17,7 +17,7 @@ def get_hot_pixels(image, threshold=100):
     # diff = np.where(diff > threshold, 1, 0)
 
     newimage = MicropolImage(image)
-    newimage._set_data_and_Stokes(merge_polarizations(diff))
+    newimage._update_data_and_Stokes(merge_polarizations(diff))
 
     return newimage
 
-- 
2.43.0


From acd6d16725853e79ee647cd32be7118030002def Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 10/51] fix: polar selection with the default radii

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 5bdf4e9..ecf247d 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -35,7 +35,6 @@ def roi_from_polar(
     """
     height, width = data.shape
     theta_min, theta_max = theta
-    rho_min, rho_max = rho
     if center is None:
         center = [int(height / 2), int(width / 2)]
     else:
@@ -44,6 +43,7 @@ def roi_from_polar(
     if rho is None:
         rho_max = np.min([height - center[0], width - center[1]])
         rho = [0.0, rho_max]
+    rho_min, rho_max = rho
 
     if include_superpixels:
         # make a map that is HALF THE SIZE, do condition, then resize to make all the superpixel outside selection
-- 
2.43.0


From c270325c4e7da83f632277b113bf3b1ad2ea1a0e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 11/51] fix: output path of a converted raw file whose path
 contains dots

---
 micropolarray/processing/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 351bc3a..774bc31 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -197,14 +197,14 @@ def convert_rawfile_to_fits(
     Raises:
         ValueError: raised if the file does not end with ".raw"
     """
-    if not ".raw" in filename:
+    if Path(filename).suffix != ".raw":
         raise ValueError("Can't convert: not a row file")
     with open(filename, mode="rb") as file:
         buffer = file.read()
     data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
-    new_filename = os.path.pathsep.join(filename.split(".")[:-1]) + ".fits"
+    new_filename = str(Path(filename).with_suffix(".fits"))
     HDU.writeto(new_filename, overwrite=True)
     info(f'Image successfully saved to "{new_filename}".')
 
-- 
2.43.0


From be605455ffd9a897fafaafa4fc6f759f3439d120 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 12/51] fix: decode packed files whose chunks end with zero
 bytes

---
 micropolarray/processing/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 774bc31..ffdcaad 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -54,9 +54,9 @@ def nparr_from_binary(filename):
     if chunk_size % 1 or (chunk_size / 3) % 1:
         raise ValueError("Indivisible by chunks")
     chunk_size = int(chunk_size)
-    splitted = np.array(
-        [filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)]
-    )
+    splitted = [
+        filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)
+    ]
     with mp.Pool(processes=chunks_n) as p:
         result = p.map(three_bytes_to_two_ints, splitted)
     newarr = np.array(result).reshape((1952, 1952))
-- 
2.43.0


From ba60aded5cb40fc3ba6aa0fee4e9afee9b78a4c6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 13/51] fix: shift and field of view correction of big-endian
 data

---
 micropolarray/image.py          | 3 ++-
 micropolarray/micropol_image.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 5a6602b..0029f57 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -154,7 +154,8 @@ class Image:
             Image: shifted image copied from the original
         """
         # newdata = shift(self.data, y, x)
-        newdata = shift(self.data, y, x, missing)
+        native_dtype = self.data.dtype.newbyteorder("=")  # needed by numba
+        newdata = shift(self.data.astype(native_dtype), y, x, missing)
         newimage = Image(newdata)
 
         return newimage
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index ce72180..3411f9c 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -428,8 +428,8 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: image with data corrected for field of view differences
         """
-        corrected_data = self.data.copy()
-        corrected_data = _ifov_jitcorrect(self.data, self.height, self.width)
+        corrected_data = np.array(self.data, dtype=float)  # casting needed by numba
+        corrected_data = _ifov_jitcorrect(corrected_data, self.height, self.width)
         self._update_data_and_Stokes(corrected_data)
         return self
 
-- 
2.43.0


From aba6d71a76149ad3fdc6103c668dc947cc781d07 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 14/51] fix: Chen-Wan-Liang correction of integer data was
 truncated to integers

---
 micropolarray/processing/chen_wan_liang_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index b601251..21b43d1 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -271,7 +271,7 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
     height, width = data.shape
     C_ij = np.zeros(shape=(4, 4, height, width))
     d_ij = np.zeros_like(data)
-    corrected_data = np.zeros_like(data)
+    corrected_data = np.zeros_like(data, dtype=float)
     ifov_corrected_data = np.zeros_like(data)
     correction_path = Path(calibration_matrices_dir)
     if not correction_path.is_absolute():  # suppose it is in cwd
-- 
2.43.0


From 0f39d0870bb2773012469407e810795982a154d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 15/51] fix: refuse process grids which leave image borders out
 of the calibration

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index bbada28..4476e62 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -496,6 +496,10 @@ def calculate_demodulation_tensor(
     chunks_n_y, chunks_n_x = procs_grid
     chunk_size_y = int(height / chunks_n_y)
     chunk_size_x = int(width / chunks_n_x)
+    if height % chunks_n_y or width % chunks_n_x:
+        raise ValueError(
+            f"cant decompose a {height}x{width} image into a {procs_grid[0]}x{procs_grid[1]} grid of equal parts. Try changing the number of processors."
+        )
     if (chunk_size_x % 2) or (chunk_size_y % 2):
         raise ValueError(
             f"cant decompose into a {procs_grid[0]}x{procs_grid[1]} grid (odd side grid {chunk_size_y}x{chunk_size_x}). Try changing the number of processors."
-- 
2.43.0


From 15c48e4a7163533651c43c7cade3efe840a66d08 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 16/51] fix: keep each normalization image with its own
 calibration file

---
 micropolarray/processing/demodulation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 4476e62..f5af069 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -323,9 +323,14 @@ def calculate_demodulation_tensor(
             f"Each one among (0, 45, 90, -45 / 135) polarizations must be included in the polarizer orientation array. Provided {polarizer_orientations}"
         )  # for calculating normalizing_S
 
-    polarizer_orientations, filenames_list = (
-        list(t) for t in zip(*sorted(zip(polarizer_orientations, filenames_list)))
+    sorted_indexes = sorted(
+        range(len(filenames_list)),
+        key=lambda i: (polarizer_orientations[i], filenames_list[i]),
     )
+    polarizer_orientations = [polarizer_orientations[i] for i in sorted_indexes]
+    filenames_list = [filenames_list[i] for i in sorted_indexes]
+    if type(normalizing_S) is np.ndarray and len(normalizing_S.shape) == 3:
+        normalizing_S = normalizing_S[sorted_indexes]  # one image per file
     micropol_phases_previsions = np.array(micropol_phases_previsions)
     rad_micropol_phases_previsions = np.deg2rad(micropol_phases_previsions)
 
-- 
2.43.0


From f0163acd99c5087716f555fdb8f77e6152c04e07 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 17/51] fix: the superpixel at the occulter center was not
 excluded from calibration

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index f5af069..1089a4b 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -358,8 +358,8 @@ def calculate_demodulation_tensor(
         occulter_y, occulter_x, occulter_r = binned_occulter
 
         occulter_flag = roi_from_polar(
-            occulter_flag, [occulter_y, occulter_x], [0, occulter_r]
-        )
+            occulter_flag, [occulter_y, occulter_x], [-2, occulter_r]
+        )  # minimum radius is excluded, -2 keeps the center superpixel too
         for super_y in range(0, occulter_flag.shape[0], 2):
             for super_x in range(0, occulter_flag.shape[1], 2):
                 if np.any(occulter_flag[super_y : super_y + 2, super_x : super_x + 2]):
-- 
2.43.0


From 5e795fcef7702eab165a372e115e21dcd819a7a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 18/51] fix: demodulation without fit flags, of demosaiced
 images and with a calibration of the wrong size

---
 micropolarray/micropol_image.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 3411f9c..d048acd 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -325,13 +325,21 @@ class MicropolImage(Image):
                     mij[i, j, :, :] = merge_polarizations(
                         np.repeat(demo_component[np.newaxis, :, :], 4, axis=0)
                     )  # repeat necessary to avoid numba problems
-            fit_found_flags = merge_polarizations(
-                np.array(4 * [demodulator.fit_found_flags.astype(float)])
-            )  # idk why but fit_found_flags is >f8 as default
+            if fit_found_flags is not None:
+                fit_found_flags = merge_polarizations(
+                    np.array(4 * [fit_found_flags.astype(float)])
+                )  # idk why but fit_found_flags is >f8 as default
         else:
+            self._is_demosaiced = False
+            self.demosaiced_images = None
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
 
+        if mij.shape[-2:] != splitted_pols.shape[-2:]:
+            raise ValueError(
+                f"demodulation matrix {mij.shape[-2:]} and images {splitted_pols.shape[-2:]} have different shapes. Check that binning is correct."
+            )
+
         """
         print(mij.shape)
         print(splitted_pols.shape)
@@ -378,7 +386,7 @@ class MicropolImage(Image):
 
         # use theo stokes where fit wasn't found
         if demodulator.fit_found_flags is not None:
-            theo_S = self.Stokes_vec
+            theo_S = self._get_theo_Stokes_vec_components()
             S = np.where(fit_found_flags == 1.0, S, theo_S)
 
         return S
-- 
2.43.0


From e0e08163466c1c08e46f15bdd1fd8d0c0aaabff8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 19/51] fix: rotating or flipping a calibration moves its fit
 flags too and works on any shape

---
 micropolarray/processing/demodulation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 1089a4b..cdefce7 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -256,14 +256,18 @@ class Demodulator:
 
     def rot90(self, k=1):
         # NB: rotation could switch micropol positions inside superpixel, but for demo matrix all px in superpix are equal
-        for i in range(self.n_malus_params):
-            for j in range(self.n_pixels_in_superpix):
-                self.mij[i, j] = np.rot90(self.mij[i, j], k=k)
+        self.mij = np.array(
+            [[np.rot90(matrix, k=k) for matrix in row] for row in self.mij]
+        )
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.rot90(self.fit_found_flags, k=k)
 
     def flip(self, axis):
         for i in range(self.n_malus_params):
             for j in range(self.n_pixels_in_superpix):
                 self.mij[i, j] = np.flip(self.mij[i, j], axis=axis)
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.flip(self.fit_found_flags, axis=axis)
 
 
 def calculate_demodulation_tensor(
-- 
2.43.0


From abc7db56125a4c8078d463a5e74a6e7753a11d25 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 20/51] fix: error on the angle of linear polarization of pure
 U light

---
 micropolarray/processing/demodulation_errors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation_errors.py b/micropolarray/processing/demodulation_errors.py
index 6df8ef3..bd6376b 100644
--- a/micropolarray/processing/demodulation_errors.py
+++ b/micropolarray/processing/demodulation_errors.py
@@ -78,8 +78,10 @@ def get_error_on_AoLP(S: np.ndarray, sigma_S: np.ndarray) -> np.ndarray:
     I, Q, U = S
     sigma_I, sigma_Q, sigma_U = sigma_S
 
-    aolp_var = (sigma_U * sigma_U + sigma_Q * sigma_Q * U * U / (Q * Q)) / (
-        4 * Q * Q * (1 + (U * U / (Q * Q))) * (1 + (U * U / (Q * Q)))
+    pB2 = Q * Q + U * U
+
+    aolp_var = (Q * Q * sigma_U * sigma_U + U * U * sigma_Q * sigma_Q) / (
+        4 * pB2 * pB2
     )
 
     return np.sqrt(aolp_var)
-- 
2.43.0


From c7d25cca8bf8d9ed1d79a942089adef4cff3f378 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 21/51] fix: line profiles end exactly at their last pixel

---
 micropolarray/processing/linear_roi.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index d1bd77a..2e53e71 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -66,8 +66,8 @@ def linear_roi_from_polar(
         or (ys[-1] < 0)
         or (xs[-1] < 0)
     ):
-        ys = ys[:-2]
-        xs = xs[:-2]
+        ys = ys[:-1]
+        xs = xs[:-1]
 
     result = np.array([data[y, x] for y, x in zip(ys, xs)])
 
@@ -120,21 +120,15 @@ def DDA(start: list, end: list) -> np.ndarray:
         step = np.abs(dx)
     else:
         step = np.abs(dy)
-    dx = dx / step
-    dy = dy / step
-    x = x1
-    y = y1
-    xs = [int(x)]
-    ys = [int(y)]
+    xs = [x1]
+    ys = [y1]
 
     i = 0
-    while i <= step:
-        x = x + dx
-        y = y + dy
+    while i < step:
         i = i + 1
         # if (int(y) != ys[-1]) and (int(x) != xs[-1]):
-        ys.append(int(y))
-        xs.append(int(x))
+        ys.append(int(y1 + (i * dy) // step))
+        xs.append(int(x1 + (i * dx) // step))
 
     points_density = np.sqrt((x2 - x1) ** 2 + (y2 - y1) ** 2) / len(xs)
 
-- 
2.43.0


From ebff771b32ee02de572747dd0167cc8e54e9695c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 22/51] fix: demosaiced images shown with a requested color
 range

---
 micropolarray/micropol_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index d048acd..9534247 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -576,6 +576,7 @@ class MicropolImage(Image):
         ax = ax.ravel()
         demo_images_list = self.demosaiced_images
         for i, single_demo_ax in enumerate(ax):
+            this_vmin, this_vmax = vmin, vmax
             if vmin is None:
                 this_vmin = mean_minus_std(demo_images_list[i])
             if vmax is None:
-- 
2.43.0


From f996c76605664bad4ad85c0b2ee5534e81bb9c19 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 23/51] fix: angle normalization modified the list of the
 caller

---
 micropolarray/polarization_functions.py | 1 +
 micropolarray/utils.py                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/micropolarray/polarization_functions.py b/micropolarray/polarization_functions.py
index 7bfcab4..1a9278e 100644
--- a/micropolarray/polarization_functions.py
+++ b/micropolarray/polarization_functions.py
@@ -78,6 +78,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)  # leave the input list untouched
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 9b5ee75..ae9e8c8 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -130,6 +130,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)  # leave the input list untouched
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
-- 
2.43.0


From 393af0cdd5877cd325d0a820fbb0a5ebb792f6ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 24/51] fix: superpixel rebinning of odd sizes never ended

---
 micropolarray/processing/rebin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/micropolarray/processing/rebin.py b/micropolarray/processing/rebin.py
index 3367153..088da0b 100644
--- a/micropolarray/processing/rebin.py
+++ b/micropolarray/processing/rebin.py
@@ -125,6 +125,8 @@ def trim_to_match_2xbinning(height: int, width: int, binning: int):
     Returns:
         int, int: image new height and width
     """
+    if (height % 2) or (width % 2):
+        raise ValueError("Odd number of pixels, can't rebin superpixels.")
     trimmed = False
     new_width = width
     new_height = height
-- 
2.43.0


From ab290b0b26776419d7f8f3e46c241c1e65f0ce7c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 25/51] fix: load files which carry a date of observation
 without its time

---
 micropolarray/image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 0029f57..60077e2 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -86,6 +86,8 @@ class Image:
                         "%Y-%m-%dT%H:%M:%S",
                     )
                 except ValueError:  # antarticor format
+                    if "TIME-OBS" not in hul[0].header:
+                        continue  # no time of observation
                     datetimes[idx] = datetime.datetime.strptime(
                         hul[0].header["DATE-OBS"]
                         + "-"
-- 
2.43.0


From ebd3bee81e8a95cc783088b2f12fd7069071145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 26/51] fix: load calibrations from folders whose name has
 wildcard characters

---
 micropolarray/processing/demodulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index cdefce7..41e44ee 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -43,7 +43,9 @@ class Demodulator:
     @property
     def Cij(self) -> np.ndarray:
         covariance_tensor_fnames = glob.glob(
-            os.path.join(self.demo_matrices_path, "covariance_tensor", "*")
+            os.path.join(
+                glob.escape(self.demo_matrices_path), "covariance_tensor", "*"
+            )
         )
 
         if not covariance_tensor_fnames:
@@ -149,7 +151,9 @@ class Demodulator:
             raise FileNotFoundError("self.demo_matrices_path not found.")
 
         # look for first matrix file and get dimensions
-        filenames_list = glob.glob(self.demo_matrices_path + os.path.sep + "*.fits")
+        filenames_list = glob.glob(
+            glob.escape(self.demo_matrices_path) + os.path.sep + "*.fits"
+        )
         if not filenames_list:
             raise FileNotFoundError("No fits files in selected folder.")
 
-- 
2.43.0


From 183105482778c6fe835e4c50b5a3982bced91044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 27/51] fix: report write errors on the last block of FITS
 data, a raw file could be removed after an incomplete conversion

---
 micropolarray/image.py                            |  4 ++--
 micropolarray/micropol_image.py                   |  9 +++++----
 .../processing/chen_wan_liang_calibration.py      |  6 +++---
 micropolarray/processing/convert.py               |  8 +++++---
 micropolarray/processing/demodulation.py          | 15 ++++++++++-----
 micropolarray/utils.py                            | 10 ++++++++++
 6 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 60077e2..41edb8c 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -12,7 +12,7 @@ from astropy.io import fits
 
 from micropolarray.processing.rebin import standard_rebin
 from micropolarray.processing.shift import shift
-from micropolarray.utils import _make_abs_and_create_dir, fix_data
+from micropolarray.utils import _make_abs_and_create_dir, _write_fits, fix_data
 
 
 def _divide(dividend: np.ndarray, divisor) -> np.ndarray:
@@ -218,7 +218,7 @@ class Image:
             do_not_scale_image_data=True,
             uint=False,
         )
-        hdu.writeto(filepath, overwrite=True)
+        _write_fits(hdu, filepath)
         info(f'Image successfully saved to "{filepath}".')
 
     def save_as_raw(self, filename: str):
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 9534247..b984de4 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -27,6 +27,7 @@ from micropolarray.processing.rebin import micropolarray_rebin
 from micropolarray.processing.shift import shift_micropol
 from micropolarray.utils import (
     _make_abs_and_create_dir,
+    _write_fits,
     fix_data,
     mean_minus_std,
     mean_plus_std,
@@ -696,7 +697,7 @@ class MicropolImage(Image):
                     str(group_filepath) + "POL" + str(single_pol.ID) + ".fits"
                 )
             )
-            hdu.writeto(filename_with_ID, overwrite=True)
+            _write_fits(hdu, filename_with_ID)
         info(f'All params successfully saved to "{filename}"')
 
     def save_param_as_fits(
@@ -743,7 +744,7 @@ class MicropolImage(Image):
         #    filename.split(".")[-2] + "_" + polparam.ID + ".fits"
         # )
 
-        hdu.writeto(filename_with_ID, overwrite=True)
+        _write_fits(hdu, filename_with_ID)
         info(f'"{filename_with_ID}" {polparam.ID} successfully saved')
 
     def save_all_pol_params_as_fits(self, filename: str) -> None:
@@ -775,7 +776,7 @@ class MicropolImage(Image):
                 uint=False,
             )
             filename_with_ID = group_filename + "_" + param.ID + ".fits"
-            hdu.writeto(filename_with_ID, overwrite=True)
+            _write_fits(hdu, filename_with_ID)
         info(f'All params successfully saved to "{group_filename}"')
 
     def save_demosaiced_images_as_fits(
@@ -812,7 +813,7 @@ class MicropolImage(Image):
                 uint=False,
             )
             new_filename = group_filename + "_POL" + str(POL_ID) + ".fits"
-            hdu.writeto(new_filename, overwrite=True)
+            _write_fits(hdu, new_filename)
         info(f'Demosaiced images successfully saved to "{group_filename}_POLX.fits"')
 
     # ----------------------------------------------------------------
diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 21b43d1..30b7d20 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -9,7 +9,7 @@ from tqdm import tqdm
 
 from micropolarray.cameras import PolarCam
 from micropolarray.processing.nrgf import roi_from_polar
-from micropolarray.utils import _make_abs_and_create_dir
+from micropolarray.utils import _make_abs_and_create_dir, _write_fits
 
 
 def calculate_chen_wan_lian_calibration(
@@ -214,9 +214,9 @@ def calculate_chen_wan_lian_calibration(
     for i in range(4):
         for j in range(4):
             hdu = fits.PrimaryHDU(data=C_ij[i, j])
-            hdu.writeto(output_dir + f"/C{i}{j}.fits", overwrite=True)
+            _write_fits(hdu, output_dir + f"/C{i}{j}.fits")
     hdu = fits.PrimaryHDU(data=d_ij)
-    hdu.writeto(output_dir + "/d_ij.fits", overwrite=True)
+    _write_fits(hdu, output_dir + "/d_ij.fits")
 
 
 @njit
diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index ffdcaad..a6d3992 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -10,6 +10,8 @@ import pytz
 import tqdm
 from astropy.io import fits
 
+from micropolarray.utils import _write_fits
+
 
 def three_bytes_to_two_ints(filecontent):
     """Needed for parallelization, this will be run by each thread for a slice of the original array.
@@ -90,7 +92,7 @@ def convert_set(filenames, new_filename, height, width):
         str(date_and_time),
         "Datetime conversion from bin to fits file (Dome C timezone).",
     )
-    hdu.writeto(abs_new_filename, overwrite=True)
+    _write_fits(hdu, abs_new_filename)
 
 
 def average_rawfiles_to_fits(
@@ -180,7 +182,7 @@ def merge_rawfiles_to_fits(
         str(date_and_time),
         "Datetime conversion from bin to fits file (Dome C timezone).",
     )
-    hdu.writeto(abs_new_filename, overwrite=True)
+    _write_fits(hdu, abs_new_filename)
 
 
 def convert_rawfile_to_fits(
@@ -205,7 +207,7 @@ def convert_rawfile_to_fits(
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
     new_filename = str(Path(filename).with_suffix(".fits"))
-    HDU.writeto(new_filename, overwrite=True)
+    _write_fits(HDU, new_filename)
     info(f'Image successfully saved to "{new_filename}".')
 
     if remove_old:
diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 41e44ee..439e57d 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -22,7 +22,12 @@ from micropolarray.processing.rebin import (
     standard_rebin,
     trim_to_match_binning,
 )
-from micropolarray.utils import mean_plus_std, merge_polarizations, normalize2pi
+from micropolarray.utils import (
+    _write_fits,
+    mean_plus_std,
+    merge_polarizations,
+    normalize2pi,
+)
 
 # Shape of the demodulation matrix
 N_PIXELS_IN_SUPERPIX = 4
@@ -740,7 +745,7 @@ def calculate_demodulation_tensor(
     for i in range(N_MALUS_PARAMS):
         for j in range(N_PIXELS_IN_SUPERPIX):
             hdu = fits.PrimaryHDU(data=m_ij[i, j])
-            hdu.writeto(output_str + os.path.sep + f"M{i}{j}.fits", overwrite=True)
+            _write_fits(hdu, output_str + os.path.sep + f"M{i}{j}.fits")
 
     Path(output_str + os.path.sep + "covariance_tensor").mkdir(
         parents=True, exist_ok=True
@@ -748,13 +753,13 @@ def calculate_demodulation_tensor(
     for i in range(N_MALUS_PARAMS):
         for j in range(N_MALUS_PARAMS):
             hdu = fits.PrimaryHDU(data=covariance_tensor[i, j])
-            hdu.writeto(
+            _write_fits(
+                hdu,
                 output_str
                 + os.path.sep
                 + f"covariance_tensor"
                 + os.path.sep
                 + f"C{i}{j}.fits",
-                overwrite=True,
             )
 
     for parameter_data, parameter_name in zip(
@@ -768,7 +773,7 @@ def calculate_demodulation_tensor(
         ],
     ):
         hdu = fits.PrimaryHDU(data=parameter_data)
-        hdu.writeto(output_str + os.path.sep + parameter_name + ".fits", overwrite=True)
+        _write_fits(hdu, output_str + os.path.sep + parameter_name + ".fits")
 
     info("Demodulation matrices and fit data successfully saved!")
 
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index ae9e8c8..d3f6031 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -1,3 +1,4 @@
+import io
 import os
 import sys
 import time
@@ -46,6 +47,15 @@ def _make_abs_and_create_dir(filename: str):
     return str(path)
 
 
+def _write_fits(hdu, filename: str):
+    """Writes the hdu, replacing an existing file. The array goes through memory because an error on the last block of one written directly to file (numpy.tofile) is not reported."""
+    content = io.BytesIO()
+    hdu.writeto(content)
+    Path(filename).unlink(missing_ok=True)
+    with open(filename, "wb") as file:
+        file.write(content.getbuffer())
+
+
 def sigma_DN(pix_DN):
     gain = 6.93
     sigma_DN = np.sqrt(gain * pix_DN) / gain
-- 
2.43.0


From 9cdcedf752fb4f7786fcf2205eaeb547cbd7350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 28/51] fix: a missing demodulation matrix went unnoticed if
 another file name had two digits

---
 micropolarray/processing/demodulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 439e57d..8adabcc 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -180,6 +180,7 @@ class Demodulator:
         fit_found_flags = None
 
         matches = 0
+        found_ij = set()
         for filename in filenames_list:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
@@ -188,13 +189,14 @@ class Demodulator:
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                found_ij.add((i, j))
                 with fits.open(filename) as hul:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
                     fit_found_flags = hul[0].data
 
-        if matches != 12:
+        if matches != 12 or len(found_ij) != 12:
             raise ValueError(
                 "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
             )
-- 
2.43.0


From f1695e3eeb4b92ef9c41300ce7fc13fc2403491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 29/51] fix: reject output names without .fits before creating
 folders, for demosaiced images too

---
 micropolarray/micropol_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index b984de4..e2d72ed 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -675,9 +675,9 @@ class MicropolImage(Image):
             ValueError: an invalid file name is provided
         """
         polslist = [self.pol0, self.pol45, self.pol90, self.pol_45]
-        filepath = Path(_make_abs_and_create_dir(filename))
-        if filepath.suffix != ".fits":
+        if Path(filename).suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
+        filepath = Path(_make_abs_and_create_dir(filename))
         group_filepath = filepath.joinpath(filepath.parent, filepath.stem)
         for single_pol in polslist:
             hdr = self.header.copy()
@@ -717,9 +717,9 @@ class MicropolImage(Image):
             ValueError: filename is not a valid .fits file
         """
         polparam = getattr(self, polparam)
-        filepath = Path(_make_abs_and_create_dir(filename))
-        if filepath.suffix != ".fits":
+        if Path(filename).suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
+        filepath = Path(_make_abs_and_create_dir(filename))
         hdr = self.header.copy()
         hdr["PARAM"] = (str(polparam.title), "Polarization parameter")
         hdr["UNITS"] = (str(polparam.measure_unit), "Measure units")
@@ -795,7 +795,7 @@ class MicropolImage(Image):
             raise ValueError("Demosaiced images not yet calculated.")
         imageHdr = self.header.copy()
         filepath = Path(filename)
-        if not filepath.suffix:
+        if filepath.suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
         filepath = Path(_make_abs_and_create_dir(filename))
         group_filename = str(filepath.joinpath(filepath.parent, filepath.stem))
-- 
2.43.0


From 1a81daea8b427b8950af7f56fe982fa42a3451c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:47 +0000
Subject: [PATCH 30/51] fix: Sun centre keywords one pixel off for positions
 which rounding put below the integer

---
 micropolarray/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index d3f6031..ef0fae4 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -215,10 +215,9 @@ def align_keywords_and_data(header, data, sun_center, platescale, binning=1):
     #    y, x, _ = PolarCam().occulter_pos_2021
     # elif year == 2022:
     #    y, x, _ = PolarCam().occulter_pos_last
-    relative_y = y / 1952
-    relative_x = x / 1952
-    sun_x = int(width * relative_x)
-    sun_y = int(height * relative_y)
+    # multiply first: 1952 * (123 / 1952) is truncated to 122
+    sun_x = int(width * x / 1952)
+    sun_y = int(height * y / 1952)
 
     # one changes because of rotation, the other because of jhelioviewer representation
     header["CRPIX1"] = height - sun_y  # y, checked
-- 
2.43.0


From 93f236391b3003b958f0694581fa55d615f83a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 31/51] fix: changing the dictionary given to
 set_default_angles changed the default

---
 micropolarray/micropol_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index e2d72ed..b3094ca 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -64,7 +64,8 @@ def set_default_angles(angles_dic: dict):
         angles_dic (dict): dictionary {value : pos} where value is the angle in degrees from -90 to 90 and pos is the pixel position in superpixel, from 0 to 3 (position [y, x], fast index x)
     """
     global DEFAULT_ANGLES_DIC
-    DEFAULT_ANGLES_DIC = angles_dic
+    # a copy, later changes to the caller's dictionary must not affect it
+    DEFAULT_ANGLES_DIC = None if angles_dic is None else dict(angles_dic)
 
 
 class MicropolImage(Image):
-- 
2.43.0


From c1932f0432a60c7d7f6f977d27ecd680907c4f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 32/51] fix: find_occulter_hough overflowed on integer arrays

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index ecf247d..5d0bdcd 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -190,7 +190,7 @@ def find_occulter_hough(
         maxr = np.max(data.shape)
     minDist = np.max(data.shape)  # minimum distance between circles
 
-    data = 255 * data / np.max(data)
+    data = 255 * np.array(data, dtype=float) / np.max(data)
     blurred = cv2.medianBlur(data.astype("uint8"), 5)
     accumulator = 10
     circles = cv2.HoughCircles(
-- 
2.43.0


From 90c8c5d5e5cf1b8d0d4dd05954c874f809515c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 33/51] fix: Demodulator.show returns the subplots axes instead
 of the last one

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 8adabcc..5769c98 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -230,8 +230,8 @@ class Demodulator:
                     self.mij[i, j], cmap=cmap, vmin=vmin, vmax=vmax
                 )
                 ax[i, j].set_title(rf"M$_{i}$$_{j}$")
-        for ax in fig.get_axes():
-            ax.label_outer()
+        for single_ax in fig.get_axes():
+            single_ax.label_outer()
 
         fig.subplots_adjust(right=0.8)
         cbar_ax = fig.add_axes([0.85, 0.15, 0.05, 0.7])
-- 
2.43.0


From bfb31f2e6feddb85ef892690eb1ad9bb740003ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 34/51] fix: a calibration whose workers failed ended the
 calling program with a success status

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 5769c98..cfbb8a7 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -643,7 +643,7 @@ def calculate_demodulation_tensor(
             ending_time = time.perf_counter()
 
             info(f"Elapsed : {(ending_time - starting_time)/60:3.2f} mins")
-            sys.exit()
+            raise
 
     else:
         arglist = [arg for arg in args]
-- 
2.43.0


From 15e2c796cd4a256659ee098bafd781e1a353252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 35/51] fix: automatic normalisation failed when the signal
 peak was near the first or last histogram bin

---
 micropolarray/processing/demodulation.py | 12 ++++++------
 micropolarray/utils.py                   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index cfbb8a7..216dc0a 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -465,8 +465,9 @@ def calculate_demodulation_tensor(
             return norm * np.exp(-((x - x_0) ** 2) / (4 * sigma**2))
 
         hist_roi = 10  # bins around max value
-        xvalues = np.array(histo[1])[index - hist_roi : index + hist_roi]
-        yvalues = np.array(histo[0])[index - hist_roi : index + hist_roi]
+        first = max(index - hist_roi, 0)  # the peak can be near the first bin
+        xvalues = np.array(histo[1])[:-1][first : index + hist_roi]
+        yvalues = np.array(histo[0])[first : index + hist_roi]
         yvalues_sum = np.sum(yvalues)
 
         yvalues = yvalues / yvalues_sum
@@ -474,10 +475,9 @@ def calculate_demodulation_tensor(
             [value + (xvalues[1] - xvalues[0]) / 2 for value in xvalues]
         )  # shift each bin to center
         prediction = [
-            yvalues[int(len(yvalues) / 2)],  # normalization
-            xvalues[int(len(xvalues) / 2)],  # center
-            xvalues[int(len(xvalues) / 2) + int(hist_roi / 2)]
-            - xvalues[int(len(xvalues) / 2)],  # sigma
+            yvalues[index - first],  # normalization
+            xvalues[index - first],  # center
+            int(hist_roi / 2) * (xvalues[1] - xvalues[0]),  # sigma
         ]
         params, cov = curve_fit(
             gauss,
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index ef0fae4..717fd2f 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -274,18 +274,18 @@ def get_malus_normalization(four_peaks_images, show_hist=False):
         return norm * np.exp(-((x - x_0) ** 2) / (4 * sigma**2))
 
     hist_roi = 10  # bins around max value
-    xvalues = np.array(histo[1])[index - hist_roi : index + hist_roi]
-    yvalues = np.array(histo[0])[index - hist_roi : index + hist_roi]
+    first = max(index - hist_roi, 0)  # the peak can be near the first bin
+    xvalues = np.array(histo[1])[:-1][first : index + hist_roi]
+    yvalues = np.array(histo[0])[first : index + hist_roi]
     yvalues_sum = np.sum(yvalues)
     yvalues = yvalues / yvalues_sum
     xvalues = np.array(
         [value + (xvalues[1] - xvalues[0]) / 2 for value in xvalues]
     )  # shift each bin to center
     prediction = [
-        yvalues[int(len(yvalues) / 2)],  # normalization
-        xvalues[int(len(xvalues) / 2)],  # center
-        xvalues[int(len(xvalues) / 2) + int(hist_roi / 2)]
-        - xvalues[int(len(xvalues) / 2)],  # sigma
+        yvalues[index - first],  # normalization
+        xvalues[index - first],  # center
+        int(hist_roi / 2) * (xvalues[1] - xvalues[0]),  # sigma
     ]
     params, cov = curve_fit(
         gauss,
-- 
2.43.0


From 19936a164c882e7de5952dff66f4da81a683232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 36/51] fix: automatic normalisation took the occulted pixels
 for the signal peak

---
 micropolarray/processing/demodulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 216dc0a..24d62cc 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -445,6 +445,8 @@ def calculate_demodulation_tensor(
                 S_max += 0.5 * image
         # Normalizing S, has a spike of which maximum is taken
         bins = 1000
+        if not np.all(occulter_flag):  # occulted pixels carry no signal
+            S_max = S_max[occulter_flag == 0]
         histo = np.histogram(S_max, bins=bins)
         maxvalue = np.max(histo[0])
         index = np.where(histo[0] == maxvalue)[0][0]
-- 
2.43.0


From 6be674d794d4a08d736779478f2e19fc7aebc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 37/51] fix: automatic normalisation counted orientations
 measured more than once several times

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 24d62cc..4e61d91 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -442,7 +442,7 @@ def calculate_demodulation_tensor(
                 norm_S_angle_list = chosen_norm
         for pol, image in zip(polarizer_orientations, all_data_arr):
             if pol in norm_S_angle_list:
-                S_max += 0.5 * image
+                S_max += 0.5 * image / polarizer_orientations.count(pol)
         # Normalizing S, has a spike of which maximum is taken
         bins = 1000
         if not np.all(occulter_flag):  # occulted pixels carry no signal
-- 
2.43.0


From 2cee7c91c2c787c2a0f49759971e80e6790dadfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 38/51] fix: auto_threshold returned a threshold above all
 values of frames spanning less than 1

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 8989a1a..e97cf85 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -92,6 +92,6 @@ def auto_threshold(data: np.ndarray) -> float:
     print(np.max(data))
     print("a")
     return min(
-        np.linspace(np.min(data) + 1, np.max(data), np.min((data.size, 1000))),
+        np.linspace(np.min(data), np.max(data), np.min((data.size, 1000)) + 1)[1:],
         key=lambda th: otsu_intraclass_variance(data, th),
     )
-- 
2.43.0


From da1f9a0420b44f8c6ca06481b34f7f8f3294c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 39/51] fix: saving into the same new directory at the same
 time failed for one of the savers

---
 micropolarray/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 717fd2f..46704d6 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -39,11 +39,9 @@ def _make_abs_and_create_dir(filename: str):
         path = path.joinpath(Path().cwd(), path)
 
     if path.suffix:
-        if not path.parent.exists():
-            path.parent.mkdir(parents=True)
+        path.parent.mkdir(parents=True, exist_ok=True)
     else:
-        if not path.exists():
-            path.mkdir()
+        path.mkdir(exist_ok=True)
     return str(path)
 
 
-- 
2.43.0


From d6b4d3fa8ad3f2005c2fb4d176768a1bfaaec3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 40/51] fix: default orientations set while another thread
 created the first image were lost

---
 micropolarray/micropol_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index b3094ca..ea49f05 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -83,15 +83,15 @@ class MicropolImage(Image):
     ):
         self._initialize_internal_variables()
         if angle_dic is None:
-            global DEFAULT_ANGLES_DIC
-            if DEFAULT_ANGLES_DIC is None:
+            # read once and not written, another thread may be setting it
+            angle_dic = DEFAULT_ANGLES_DIC
+            if angle_dic is None:
+                angle_dic = PolarCam().angle_dic
                 if MicropolImage.first_call:
                     warning(
-                        f"Micropolarizer orientation dictionary defaults to {PolarCam().angle_dic}, set it via set_default_angles(camera)\n"
+                        f"Micropolarizer orientation dictionary defaults to {angle_dic}, set it via set_default_angles(camera)\n"
                     )
                 MicropolImage.first_call = False
-                DEFAULT_ANGLES_DIC = PolarCam().angle_dic
-            angle_dic = DEFAULT_ANGLES_DIC
         self.angle_dic = dict(angle_dic)
 
         if type(initializer) is list and len(initializer) > 1:
-- 
2.43.0


From 7bed5158455ef4d33e02d531de92c8d4a42c295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 41/51] fix: files with 32-bit float pixels were averaged and
 summed in single precision

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 41edb8c..96a6967 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -63,7 +63,7 @@ class Image:
                 )  # to fix
             with fits.open(filename) as hul:
                 if idx == 0:
-                    combined_data = hul[0].data / (
+                    combined_data = hul[0].data.astype(float) / (
                         1 + int(averageimages) * (filenames_len - 1)
                     )
                     self.header = hul[0].header
-- 
2.43.0


From 106d68d0f9103e81ac657789845a84020b7d1b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 42/51] fix: an image which refused data that are not a frame
 had already taken them

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 96a6967..3acd740 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -136,8 +136,8 @@ class Image:
     def data(self, input_data: np.array):
         """Set image data and derived polarization informations, and
         consequently change header."""
-        self._data = input_data
         self.height, self.width = input_data.shape
+        self._data = input_data
         if self.header is None:
             self.header = fits.PrimaryHDU(data=input_data).header
         else:
-- 
2.43.0


From 34a224bfa4407c4429a515b147a404b4115c14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 43/51] fix: a mask refused for its filling value had already
 replaced the pixels

---
 micropolarray/micropol_image.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index ea49f05..cf4bb11 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -968,23 +968,28 @@ class MicropolImage(Image):
 
         r = r + overoccult
 
-        self.data = roi_from_polar(
+        # everything is masked before the image is changed
+        data = roi_from_polar(
             self.data, (y, x), [r, 2 * np.max([self.height, self.width])], fill=fill
         )
         if self._is_demosaiced:
-            self.demosaiced_images = [
+            demosaiced_images = [
                 roi_from_polar(
-                    data, (y, x), (r, 2 * np.max([self.height, self.width])), fill=fill
+                    demosaiced_image,
+                    (y, x),
+                    (r, 2 * np.max([self.height, self.width])),
+                    fill=fill,
                 )
-                for data in self.demosaiced_images
+                for demosaiced_image in self.demosaiced_images
             ]
 
         if not self._is_demosaiced:
             y = int(y / 2)
             x = int(x / 2)
             r = int(r / 2)
+        Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
-            self.Stokes_vec[i] = roi_from_polar(
+            Stokes_vec[i] = roi_from_polar(
                 self.Stokes_vec[i],
                 (y, x),
                 [r, 2 * np.max(self.Stokes_vec[i].shape)],
@@ -992,6 +997,11 @@ class MicropolImage(Image):
                 fill=fill,
             )
 
+        self.data = data
+        if self._is_demosaiced:
+            self.demosaiced_images = demosaiced_images
+        self.Stokes_vec = Stokes_vec
+
     def shift(self, y: int, x: int, missing: float = 0) -> MicropolImage:
         """Shifts image by y, x pixels and fills with 0 the remaining space. Positive numbers for up/right shift and negative for down/left shift. Image is split into polarizations, each one is shifted, then they are merged again.
 
-- 
2.43.0


From d2e88bf01c766dd8d07c0ef04bb0716aea2ac3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 44/51] fix: an interruption by the user during the fit of a
 pixel was taken for a failed fit

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 4e61d91..e3806a0 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -945,7 +945,7 @@ def compute_demodulation_by_chunk(
                             / dof
                         )
 
-                    except:  # catches all exceptions
+                    except Exception:  # but not an interruption by the user
                         fit_success = False
                         break
 
-- 
2.43.0


From f351dfde62872aca1edbe179929179dbf769f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 45/51] fix: reduced chi square counted the fitted parameters
 according to the boundaries given, dividing by zero for four frames

---
 micropolarray/processing/demodulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index e3806a0..7531849 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -798,13 +798,13 @@ def compute_demodulation_by_chunk(
     N_MALUS_PARAMS = 3
     N_PIXELS_IN_SUPERPIX = 4
 
-    dof = len(polarizer_orientations) - 2
+    dof = len(polarizer_orientations) - N_MALUS_PARAMS
+    if dof < 1:  # a division by 0 would make the fits fail when numpy raises errors
+        dof = 1
     if tk_boundary is None:
         tk_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
     if eff_boundary is None:
         eff_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
 
     # Preemptly compute the theoretical demo matrix to save time
     theo_modulation_matrix = np.array(
-- 
2.43.0


From 11083ef75bb042048857eb49eb30d1080ddde0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:03 +0000
Subject: [PATCH 46/51] fix: reduced chi square divided the squared residuals
 by the standard deviation instead of the variance

---
 micropolarray/processing/demodulation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 7531849..8a046c8 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -941,8 +941,7 @@ def compute_demodulation_by_chunk(
                             - normalized_superpix_arr[:, pixel_num]
                         )
                         chisq[pixel_num] = (
-                            np.sum((residuals * residuals) / sigma_pix[:, pixel_num])
-                            / dof
+                            np.sum((residuals / sigma_pix[:, pixel_num]) ** 2) / dof
                         )
 
                     except Exception:  # but not an interruption by the user
-- 
2.43.0


From 91f6c0105545576264a41f4b6c75508215d1d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:28 +0000
Subject: [PATCH 47/51] fix: a nan reading of a dark subtracted calibration
 frame was fitted as an exact zero

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 8a046c8..5c79dda 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -423,8 +423,8 @@ def calculate_demodulation_tensor(
             if dark_filename is not None:
                 all_data_arr[idx] -= dark
                 all_data_arr[idx] = np.where(
-                    all_data_arr[idx] >= 0, all_data_arr[idx], 0.0
-                )
+                    all_data_arr[idx] < 0, 0.0, all_data_arr[idx]
+                )  # keeps nan, which is not a reading of 0
             if flat_filename is not None:
                 np.divide(
                     all_data_arr[idx],
-- 
2.43.0


From e3917de8a9b0258d516d14f8353d5ab5c2f4d7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:28 +0000
Subject: [PATCH 48/51] fix: pixels whose normalizing signal is nan were
 calibrated with a signal of 1

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 5c79dda..53bc83b 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -508,7 +508,7 @@ def calculate_demodulation_tensor(
         normalizing_S = np.array(_)
 
     # correct S=0 error
-    normalizing_S = np.where(normalizing_S >= 0, normalizing_S, 1)
+    normalizing_S = np.where(normalizing_S < 0, 1, normalizing_S)  # keeps nan
 
     if DEBUG:
         procs_grid = [1, 1]
-- 
2.43.0


From b56135f24a603b6dab34120c85ca03eeab970adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:28 +0000
Subject: [PATCH 49/51] fix: dark subtraction turned nan pixels into valid
 pixels of value 0

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index cf4bb11..9a6d556 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -403,7 +403,7 @@ class MicropolImage(Image):
             MicropolImage: copy of input image with dark subtracted
         """
         newdata = np.array(self.data, dtype=float) - dark.data
-        newdata = np.where(newdata >= 0, newdata, 0)  # Fix data
+        newdata = np.where(newdata < 0, 0, newdata)  # Fix data, keeps nan
         self._update_data_and_Stokes(newdata)
         self._dark_subtracted = True
         return self
-- 
2.43.0


From a519306ee1f1c9bba46ad3cedd6bbddfc40fa3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:44 +0000
Subject: [PATCH 50/51] fix: the flags of a loaded calibration stayed mapped to
 the file and changed with it

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 53bc83b..b09ac04 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -194,7 +194,7 @@ class Demodulator:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
-                    fit_found_flags = hul[0].data
+                    fit_found_flags = np.array(hul[0].data)
 
         if matches != 12 or len(found_ij) != 12:
             raise ValueError(
-- 
2.43.0


From a6cb689eb38e830bb40bd3e3ce2f4c486b2e8c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:34 +0000
Subject: [PATCH 51/51] fix: an error while closing a raw file, as on a full
 disk, was not reported

---
 micropolarray/image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 3acd740..efc2d85 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -233,7 +233,9 @@ class Image:
         print(self.data.shape)
         if Path(filename).suffix != ".raw":
             raise ValueError("Filename must have .raw extension")
-        self.data.astype("int16").tofile(filename)
+        # tofile would ignore an error while closing
+        with open(filename, mode="wb") as file:
+            file.write(self.data.astype("int16").tobytes())
 
     # ----------------------------------------------------------------
     # ------------------------------ SHOW ----------------------------
-- 
2.43.0

