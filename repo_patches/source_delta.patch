From a4c9f5669d6170364c9c2774319fe41077a6da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 01/78] fix: forget a removed site's sectors in the
 site-to-sector index

Topology.remove_site left the ids of the deleted sectors behind, so removing
a site that had been removed and added again raised KeyError.
---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index bc0839b..6bf0a48 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -111,7 +111,7 @@ class Topology:
         )
 
         # Remove sectors on this site
-        for sector_id in self.site_id_to_sector_ids[site_id]:
+        for sector_id in self.site_id_to_sector_ids.pop(site_id, set()):
             del self.sectors[sector_id]
 
         # Remove link from/to the site
-- 
2.43.0


From c6e81f8c92ac3e109b4c7228b35b5173803fd757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 02/78] fix: look at the incoming link when listing wireless
 predecessors

get_wireless_predecessor_sites looked up the link from the site to its
predecessor, so predecessors over a one-way link were missed.
---
 terragraph_planner/common/topology_models/topology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/topology.py b/terragraph_planner/common/topology_models/topology.py
index 6bf0a48..301531d 100644
--- a/terragraph_planner/common/topology_models/topology.py
+++ b/terragraph_planner/common/topology_models/topology.py
@@ -310,7 +310,7 @@ class Topology:
         """
         wireless_predecessor_sites = []
         for predecessor in self.get_predecessor_sites(site):
-            link = self.get_link_by_site_ids(site.site_id, predecessor.site_id)
+            link = self.get_link_by_site_ids(predecessor.site_id, site.site_id)
             if link is not None and link.is_wireless:
                 wireless_predecessor_sites.append(predecessor)
         return wireless_predecessor_sites
-- 
2.43.0


From e7fe25960ef3d537886e925ef3c8152fa27621a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 03/78] fix: compare every attribute in configuration equality

---
 terragraph_planner/common/configuration/configs.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index f77a353..8523fd0 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -149,17 +149,11 @@ class ConfigParser:
         if isinstance(other, self.__class__):
             for key, value in self.__dict__.items():
                 other_value = other.__dict__[key]
-                if isinstance(value, (int, float, tuple, str)):
-                    if value != other_value:
+                if isinstance(value, list) and isinstance(other_value, list):
+                    if sorted(value) != sorted(other_value):
                         return False
-                elif isinstance(value, list):
-                    value.sort()
-                    other_value.sort()
-                    for i in range(len(value)):
-                        if not value[i].__eq__(other_value[i]):
-                            return False
-                else:
-                    return value.__eq__(other_value)
+                elif value != other_value:
+                    return False
             return True
         else:
             return NotImplemented
-- 
2.43.0


From 3d959e26986c75e7e8b47c3b93aa6739ea26c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 04/78] fix: lower the MCS level only to levels that are in the
 MCS table

---
 terragraph_planner/common/rf/link_budget_calculator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/rf/link_budget_calculator.py b/terragraph_planner/common/rf/link_budget_calculator.py
index 750864f..447bb0d 100644
--- a/terragraph_planner/common/rf/link_budget_calculator.py
+++ b/terragraph_planner/common/rf/link_budget_calculator.py
@@ -422,7 +422,11 @@ def adjust_tx_power_with_backoff(
         tx_backoff = get_backoff_from_mcs(mcs_level, mcs_snr_mbps_map)
         if tx_power <= max_tx_power - tx_backoff:
             return mcs_level, tx_power
-        mcs_level -= 1
+        # The MCS levels in the table are not necessarily consecutive
+        mcs_level = max(
+            (row.mcs for row in mcs_snr_mbps_map if row.mcs < mcs_level),
+            default=0,
+        )
     return 0, -math.inf
 
 
-- 
2.43.0


From 8d096dea00dee149c2a12a468444cf742947ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 05/78] fix: reject a link availability of 100 percent, which
 has no rain model

---
 terragraph_planner/common/configuration/configs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/configuration/configs.py b/terragraph_planner/common/configuration/configs.py
index 8523fd0..9bee780 100644
--- a/terragraph_planner/common/configuration/configs.py
+++ b/terragraph_planner/common/configuration/configs.py
@@ -217,8 +217,8 @@ class SectorParams(ConfigParser):
             ConfigException,
         )
         planner_assert(
-            0 <= link_availability_percentage <= 100,
-            "Link availability percentage must be in [0, 100]",
+            0 <= link_availability_percentage < 100,
+            "Link availability percentage must be in [0, 100)",
             ConfigException,
         )
         planner_assert(
-- 
2.43.0


From 0adce68604daeca6bd41fc08f083d6567fba6f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 06/78] fix: reject antenna patterns with fewer than 360
 entries per axis

---
 terragraph_planner/common/data_io/csv_library.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 6c55b14..ef60f4d 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -328,6 +328,11 @@ def read_antenna_pattern_data(
                 "Imported antenna pattern file has an unexpected number of loss entries!",
                 DataException,
             )
+        planner_assert(
+            len(az_pattern) == 360 and len(el_pattern) == 360,
+            "Imported antenna pattern file has an unexpected number of loss entries!",
+            DataException,
+        )
         antenna_pattern = [
             (-1 * az_pattern[1]).values.tolist(),
             (-1 * el_pattern[1]).values.tolist(),
-- 
2.43.0


From 5b47d4ac30d0e90b9517282aa2bf973d6fc06b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 07/78] fix: accept blank optional cells in site csv files

---
 .../common/data_io/csv_library.py             | 51 +++++++++++++++----
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index ef60f4d..9820e52 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -6,7 +6,7 @@
 import csv
 import re
 from itertools import combinations
-from typing import TYPE_CHECKING, List, Optional, Tuple
+from typing import TYPE_CHECKING, List, Optional, Tuple, Union
 
 import pandas as pd
 from pyre_extensions import none_throws
@@ -145,18 +145,42 @@ def load_csv_and_validate(
                 row[SiteKey.LONGITUDE]
             )
         if SiteKey.NUMBER_OF_SUBSCRIBERS in row:
-            if df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] == "":
-                df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = None
-            elif isinstance(row[SiteKey.NUMBER_OF_SUBSCRIBERS], str):
-                df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = int(
-                    row[SiteKey.NUMBER_OF_SUBSCRIBERS]
-                )
+            num_subscribers = row[SiteKey.NUMBER_OF_SUBSCRIBERS]
+            if isinstance(num_subscribers, str):
+                try:
+                    df.loc[idx, SiteKey.NUMBER_OF_SUBSCRIBERS] = (
+                        int(num_subscribers)
+                        if num_subscribers.strip() != ""
+                        else None
+                    )
+                except ValueError:
+                    planner_assert(
+                        False,
+                        f"Invalid number of subscribers {num_subscribers}.",
+                        DataException,
+                    )
         for input_key in input_key_list:
             if input_key in row and input_key not in NUMERIC_KEYS:
                 df.loc[idx, input_key] = row[input_key].strip()
     return df
 
 
+def _to_optional_float(
+    value: Optional[Union[str, float]], key: DataKey
+) -> Optional[float]:
+    """
+    Convert the value of an optional numeric cell to float, or None if it is blank.
+    """
+    if value is None or pd.isna(value) or str(value).strip() == "":
+        return None
+    try:
+        return float(value)
+    except ValueError:
+        raise DataException(
+            f"Invalid {key.value.output_name} {value} in site csv file."
+        )
+
+
 def load_input_sites_from_csv_file(
     csv_file_path: str, is_user_input: bool
 ) -> List[RawSite]:
@@ -197,14 +221,19 @@ def load_input_sites_from_csv_file(
         site = RawSite(
             site_type=site_type,
             status_type=StatusType.CANDIDATE,
-            device_sku=site_row.get(SiteKey.DEVICE_SKU, None),
+            # A blank SKU means that the SKU is to be chosen by the planner
+            device_sku=site_row.get(SiteKey.DEVICE_SKU, None) or None,
             name=site_row.get(SiteKey.NAME, None),
             latitude=latitude,
             longitude=longitude,
-            altitude=site_row.get(SiteKey.ALTITUDE, None),
-            height=site_row.get(SiteKey.HEIGHT, None),
+            altitude=_to_optional_float(
+                site_row.get(SiteKey.ALTITUDE, None), SiteKey.ALTITUDE
+            ),
+            height=_to_optional_float(
+                site_row.get(SiteKey.HEIGHT, None), SiteKey.HEIGHT
+            ),
             location_type=LocationType.UNKNOWN,
-            building_id=site_row.get(SiteKey.BUILDING_ID, None),
+            building_id=site_row.get(SiteKey.BUILDING_ID, None) or None,
             number_of_subscribers=site_row.get(
                 SiteKey.NUMBER_OF_SUBSCRIBERS, None
             ),
-- 
2.43.0


From f9b8ee84df160ca723759cf9983f1ce29e4750bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 08/78] fix: keep text columns of csv files as written

---
 terragraph_planner/common/data_io/csv_library.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index 9820e52..a3cb405 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -82,11 +82,20 @@ def load_csv_and_validate(
     A dataframe loaded from the input csv file after validation.
     """
     df = pd.DataFrame()
+    text_df = pd.DataFrame()
     # Read file
     try:
         df = pd.read_csv(
             csv_file_path, header=0, keep_default_na=False, encoding="utf-8-sig"
         )
+        # Text columns are kept as written, e.g. site name "001"
+        text_df = pd.read_csv(
+            csv_file_path,
+            header=0,
+            keep_default_na=False,
+            encoding="utf-8-sig",
+            dtype=str,
+        ).fillna("")
     except Exception:
         planner_assert(
             False,
@@ -97,6 +106,7 @@ def load_csv_and_validate(
     # Standardize column to make it easy to process in the following validation
     for col_name in df.columns:
         df.rename(columns={col_name: col_name.strip().casefold()}, inplace=True)
+    text_df.columns = df.columns
     duplicated_cols = []
     nb_matched_cols = {}
     for input_key in input_key_list:
@@ -106,7 +116,7 @@ def load_csv_and_validate(
         # Rename the column name as the input key
         for col in matched_cols:
             if input_key not in NUMERIC_KEYS:
-                df[col] = df[col].apply(str)
+                df[col] = text_df[col]
             df.rename(columns={col: input_key}, inplace=True)
         nb_matched_cols[input_key] = len(matched_cols)
         if nb_matched_cols[input_key] > 1:
-- 
2.43.0


From 9f062b3184296542753d52d881ec9c887e6d1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 09/78] fix: do not shift the columns of csv rows with a
 trailing delimiter

---
 terragraph_planner/common/data_io/csv_library.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index a3cb405..caa4367 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -85,13 +85,20 @@ def load_csv_and_validate(
     text_df = pd.DataFrame()
     # Read file
     try:
+        # With index_col=False, a trailing delimiter in the data rows does not
+        # shift the columns
         df = pd.read_csv(
-            csv_file_path, header=0, keep_default_na=False, encoding="utf-8-sig"
+            csv_file_path,
+            header=0,
+            index_col=False,
+            keep_default_na=False,
+            encoding="utf-8-sig",
         )
         # Text columns are kept as written, e.g. site name "001"
         text_df = pd.read_csv(
             csv_file_path,
             header=0,
+            index_col=False,
             keep_default_na=False,
             encoding="utf-8-sig",
             dtype=str,
-- 
2.43.0


From 68b7c7e62c40f562a5d73f150d5a1855b245aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 10/78] fix: reject MCS tables without any usable row

---
 terragraph_planner/common/data_io/csv_library.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/csv_library.py b/terragraph_planner/common/data_io/csv_library.py
index caa4367..0d7b733 100644
--- a/terragraph_planner/common/data_io/csv_library.py
+++ b/terragraph_planner/common/data_io/csv_library.py
@@ -439,7 +439,7 @@ def read_mcs_snr_mbps_map_data(
             DataException,
         )
     planner_assert(
-        len(raw_data) > 0,
+        len(raw_data) > 1,
         "The csv file must contain at least two lines including column names.",
         DataException,
     )
@@ -544,4 +544,9 @@ def read_mcs_snr_mbps_map_data(
             or mapping[MCS][i] >= sector_params.minimum_mcs_level
         )
     ]
+    planner_assert(
+        len(mcs_snr_mbps_map) > 0,
+        "No MCS level in the mapping table can be reached with the Min/Max Tx power.",
+        DataException,
+    )
     return mcs_snr_mbps_map
-- 
2.43.0


From ea712ff4bd0641b1bf9cfd2223623ced20cf4384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 11/78] fix: read rooftop sites of a topology KML file back,
 with their building

---
 terragraph_planner/common/data_io/data_key.py    |  1 +
 terragraph_planner/common/data_io/kml_library.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/data_key.py b/terragraph_planner/common/data_io/data_key.py
index 96ada96..ca3c06e 100644
--- a/terragraph_planner/common/data_io/data_key.py
+++ b/terragraph_planner/common/data_io/data_key.py
@@ -174,6 +174,7 @@ class SiteKey(BaseDataKey):
             cls.STATUS_TYPE,
             cls.POLARITY,
             cls.LOCATION_TYPE,
+            cls.BUILDING_ID,
             cls.DEVICE_SKU,
             cls.NUMBER_OF_SUBSCRIBERS,
         ]
diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index fdd384c..1bd6a30 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -12,6 +12,9 @@ from typing import List, Optional, Tuple, Union
 from osgeo import ogr
 from shapely.geometry import Polygon
 
+from terragraph_planner.common.configuration.constants import (
+    UNKNOWN_BUILDING_ID,
+)
 from terragraph_planner.common.configuration.enums import (
     LinkType,
     LocationType,
@@ -111,8 +114,12 @@ def extract_sites(
             altitude=altitude,
             height=height,
             location_type=location_type,
-            building_id=int(building_id)
-            if location_type is LocationType.ROOFTOP and building_id.isdecimal()
+            building_id=(
+                int(building_id)
+                if building_id.isdecimal()
+                else UNKNOWN_BUILDING_ID
+            )
+            if location_type is LocationType.ROOFTOP
             else None,
             number_of_subscribers=int(number_of_subscribers)
             if number_of_subscribers.isdecimal()
-- 
2.43.0


From 0dddcb882aa143f007fb25a697f31c3d7af6552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 12/78] fix: read fractional confidence levels from KML files

---
 terragraph_planner/common/data_io/kml_library.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 1bd6a30..4f8228c 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -5,6 +5,7 @@
 
 import json
 import logging
+import math
 import os
 import zipfile
 from typing import List, Optional, Tuple, Union
@@ -48,6 +49,17 @@ def _get_feature_field(
         return ""
 
 
+def _to_optional_float(text: str) -> Optional[float]:
+    """
+    Get the number in a text field, or None if it has none, e.g. N/A.
+    """
+    try:
+        number = float(text)
+    except ValueError:
+        return None
+    return number if math.isfinite(number) else None
+
+
 def _get_site_altitude_height(
     altitude_mode: str, altitude: Optional[float]
 ) -> Tuple[Optional[float], Optional[float]]:
@@ -151,9 +163,7 @@ def extract_links(
         link = RawLink(
             status_type=status_type,
             link_type=link_type,
-            confidence_level=float(confidence_level)
-            if confidence_level.isdecimal()
-            else None,
+            confidence_level=_to_optional_float(confidence_level),
             tx_site_name=tx_site_name,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-- 
2.43.0


From 432bb7a67bce85d119e6737e4e631db52f1f4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 13/78] fix: take the type of KML links without a type field
 from their folder

---
 terragraph_planner/common/data_io/kml_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 4f8228c..046418f 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -143,7 +143,7 @@ def extract_sites(
 def extract_links(
     raw_links: List[RawLink],
     layer: ogr.Layer,
-    link_type: LinkType,
+    layer_link_type: LinkType,
     status_type: StatusType,
 ) -> None:
     """
@@ -155,7 +155,7 @@ def extract_links(
         link_type = (
             LinkType[link_type_str.upper()]
             if link_type_str.upper() in LinkType.__members__
-            else LinkType.WIRELESS_BACKHAUL
+            else layer_link_type
         )
         tx_site_name = _get_feature_field(feature, LinkKey.TX_SITE_NAME)
         rx_site_name = _get_feature_field(feature, LinkKey.RX_SITE_NAME)
-- 
2.43.0


From d2dba9b1fef3070102fa7005a9ea607dd68e8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 14/78] fix: connect KML links without site names to the sites
 at their ends

---
 terragraph_planner/common/data_io/kml_library.py | 4 ++--
 terragraph_planner/common/structs.py             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index 046418f..e56c5b5 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -164,10 +164,10 @@ def extract_links(
             status_type=status_type,
             link_type=link_type,
             confidence_level=_to_optional_float(confidence_level),
-            tx_site_name=tx_site_name,
+            tx_site_name=tx_site_name if len(tx_site_name) > 0 else None,
             tx_latitude=geometry.GetPoint(0)[1],
             tx_longitude=geometry.GetPoint(0)[0],
-            rx_site_name=rx_site_name,
+            rx_site_name=rx_site_name if len(rx_site_name) > 0 else None,
             rx_latitude=geometry.GetPoint(1)[1],
             rx_longitude=geometry.GetPoint(1)[0],
         )
diff --git a/terragraph_planner/common/structs.py b/terragraph_planner/common/structs.py
index 4fdd8b6..3f06aa9 100644
--- a/terragraph_planner/common/structs.py
+++ b/terragraph_planner/common/structs.py
@@ -83,10 +83,10 @@ class RawLink(NamedTuple):
     link_type: LinkType
     status_type: StatusType
     confidence_level: Optional[float]
-    tx_site_name: str
+    tx_site_name: Optional[str]
     tx_latitude: float
     tx_longitude: float
-    rx_site_name: str
+    rx_site_name: Optional[str]
     rx_latitude: float
     rx_longitude: float
 
-- 
2.43.0


From 1afc0400bb2fe8c28d4033da5d0d25550a579b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 15/78] fix: read the collection time of GeoTIFF files

---
 terragraph_planner/common/data_io/elevation_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 71c9717..70fbe11 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -147,7 +147,7 @@ class ElevationLoader(DataValidator[Elevation]):
             geotransform[0],
             geotransform[3],
             ds.GetSpatialRef(),
-            ds.GetMetadata_Dict["TIFFTAG_DATETIME"]
+            ds.GetMetadata_Dict()["TIFFTAG_DATETIME"]
             if "TIFFTAG_DATETIME" in ds.GetMetadata_Dict()
             else None,
         )
-- 
2.43.0


From 236d2c116a65132511f0e4cb0dd328f02d6a7eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 16/78] fix: read zipped shapefiles that have a __MACOSX folder
 entry

---
 terragraph_planner/common/data_io/building_group_loader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index 1f92809..e443e1b 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -66,10 +66,9 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
                 raise DataException(
                     "Zip folder that contains shape files must not contain any other folders."
                 )
-        dir_name = unzipped_dir if len(dir_names) == 0 else dir_names[0]
 
         # Get input layer and CRS
-        shp_file_path = glob.glob(os.path.join(dir_name, "*.shp"))[0]
+        shp_file_path = glob.glob(os.path.join(unzipped_dir, "*.shp"))[0]
         driver = ogr.GetDriverByName("ESRI Shapefile")
         ds = driver.Open(shp_file_path)
         layer = ds.GetLayer()
-- 
2.43.0


From 058747ffea67cfa325384fe5ac9bcbbe426322fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 17/78] fix: keep the courtyards of 3D building outlines in
 shapefiles

---
 terragraph_planner/common/data_io/building_group_loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/building_group_loader.py b/terragraph_planner/common/data_io/building_group_loader.py
index e443e1b..3fb588d 100644
--- a/terragraph_planner/common/data_io/building_group_loader.py
+++ b/terragraph_planner/common/data_io/building_group_loader.py
@@ -80,7 +80,11 @@ class BuildingGroupLoader(DataValidator[BuildingGroup], DataWorkSpace):
             polygon = wkt.loads(feature.GetGeometryRef().ExportToWkt())
             if polygon.has_z:
                 polygon = geometry.Polygon(
-                    [coord[:2] for coord in polygon.exterior.coords]
+                    [coord[:2] for coord in polygon.exterior.coords],
+                    [
+                        [coord[:2] for coord in interior.coords]
+                        for interior in polygon.interiors
+                    ],
                 )
             building_list.append(Building(polygon))
             feature = layer.GetNextFeature()
-- 
2.43.0


From d65f1283fde62594a50ae64630d130029d6460fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 18/78] fix: load courtyards of KML outlines as holes, not as
 further outlines

---
 .../common/data_io/kml_library.py             | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/terragraph_planner/common/data_io/kml_library.py b/terragraph_planner/common/data_io/kml_library.py
index e56c5b5..35afcbe 100644
--- a/terragraph_planner/common/data_io/kml_library.py
+++ b/terragraph_planner/common/data_io/kml_library.py
@@ -284,10 +284,18 @@ def extract_polygons(
         for layer in kml_ds:
             for feature in layer:
                 geo = feature.GetGeometryRef()
-                for i in range(geo.GetGeometryCount()):
-                    coords = json.loads(geo.GetGeometryRef(i).ExportToJson())[
-                        "coordinates"
+                # The rings of a Polygon after the first one are its holes
+                parts = (
+                    [geo]
+                    if geo.GetGeometryName() == "POLYGON"
+                    else [
+                        geo.GetGeometryRef(i)
+                        for i in range(geo.GetGeometryCount())
                     ]
+                )
+                for part in parts:
+                    coords = json.loads(part.ExportToJson())["coordinates"]
+                    holes = []
                     # The coords of a multipolygon is like [[[0, 0], [0, 1], [1, 1], [1, 0], [0, 0]]]
                     # which is in the format of List[List[List[float]]]
                     # We only use the first polygon in the multipolygon
@@ -296,17 +304,21 @@ def extract_polygons(
                         and len(coords[0]) > 0
                         and type(coords[0][0]) is list
                     ):
-                        coords = coords[0]
-                        logger.warning(
-                            "A MultiPolygon is found is the KML. "
-                            "Only the first polygon in the MultiPolygon is used."
-                        )
+                        coords, holes = coords[0], coords[1:]
+                        if part is not geo:
+                            logger.warning(
+                                "A MultiPolygon is found is the KML. "
+                                "Only the first polygon in the MultiPolygon is used."
+                            )
                     # A Polygon should contain 3 or more points.
                     # coords have an extra coord to close the loop
                     # e.g. [(0, 0), (0, 1), (1, 1), (1, 0), (0, 0)]
                     if len(coords) > 3:
                         polygon_list.append(
-                            Polygon([coord[:2] for coord in coords])
+                            Polygon(
+                                [coord[:2] for coord in coords],
+                                [[coord[:2] for coord in h] for h in holes],
+                            )
                         )
         return polygon_list
     except Exception:
-- 
2.43.0


From 1aaf97227cd67f101c71bfa50914ff9ef344f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 19/78] fix: write zero elevations to GeoTIFF files as zero,
 not as no data

---
 terragraph_planner/common/data_io/elevation_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 70fbe11..0179178 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -69,8 +69,9 @@ class ElevationLoader(DataValidator[Elevation]):
             outds.SetSpatialRef(data.spatial_reference)
 
             outband = outds.GetRasterBand(1)
-            outband.WriteArray(data.data_matrix)
+            # Set it before writing, or GDAL takes all-zero blocks as no data
             outband.SetNoDataValue(NO_DATA_VALUE)
+            outband.WriteArray(data.data_matrix)
             outband.FlushCache()
 
             outband = None
-- 
2.43.0


From 87d2e518b4006eed2f5289b50c742780442e2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 20/78] fix: do not take rooftop sites on unknown buildings to
 share a building

---
 terragraph_planner/los/base_los_validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/los/base_los_validator.py b/terragraph_planner/los/base_los_validator.py
index 0a0ec32..486d88c 100644
--- a/terragraph_planner/los/base_los_validator.py
+++ b/terragraph_planner/los/base_los_validator.py
@@ -10,6 +10,9 @@ from typing import List, Optional, Tuple
 from shapely.geometry import LineString, Polygon
 from shapely.prepared import PreparedGeometry, prep
 
+from terragraph_planner.common.configuration.constants import (
+    UNKNOWN_BUILDING_ID,
+)
 from terragraph_planner.common.configuration.enums import LocationType
 from terragraph_planner.common.exceptions import LOSException, planner_assert
 from terragraph_planner.common.topology_models.site import LOSSite
@@ -108,6 +111,8 @@ class BaseLOSValidator(ABC):
             site1.location_type
             == site2.location_type
             == LocationType.ROOFTOP.value
+            and site1.building_id is not None
+            and site1.building_id != UNKNOWN_BUILDING_ID
             and site1.building_id == site2.building_id
         )
 
-- 
2.43.0


From e8b279c7bf8d3914e85cef799f07d4365a0b78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 21/78] fix: tell sites at one place but on different buildings
 apart in LOS batches

---
 terragraph_planner/los/helper.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index cc0f6e6..a41ee3c 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -556,15 +556,14 @@ def compute_los_batch(
     for site1_idx, site2_idx, is_bidirectional in candidate_links:
         site1 = los_sites[site1_idx]
         site2 = los_sites[site2_idx]
-        key1 = (site1.utm_x, site1.utm_y, site1.altitude)
-        key2 = (site2.utm_x, site2.utm_y, site2.altitude)
-        if (key1, key2) in memoized_calculations:
-            confidence = memoized_calculations[(key1, key2)]
-        elif (key2, key1) in memoized_calculations:
-            confidence = memoized_calculations[(key2, key1)]
+        # Sites at the same place may still be on different buildings
+        if (site1, site2) in memoized_calculations:
+            confidence = memoized_calculations[(site1, site2)]
+        elif (site2, site1) in memoized_calculations:
+            confidence = memoized_calculations[(site2, site1)]
         else:
             confidence = los_validator.compute_confidence(site1, site2)
-            memoized_calculations[(key1, key2)] = confidence
+            memoized_calculations[(site1, site2)] = confidence
 
         if confidence > 0:
             valid_los_links.append(ValidLOS(site1_idx, site2_idx, confidence))
-- 
2.43.0


From 57341021729b48168be18ef58e3b209745a6f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 22/78] fix: convert exclusion zones to UTM, in which LOS is
 computed

---
 terragraph_planner/los/helper.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index a41ee3c..27092de 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -13,7 +13,7 @@ import numpy as np
 import numpy.typing as npt
 from osgeo import osr
 from pyre_extensions import none_throws
-from shapely import wkt
+from shapely import ops, wkt
 from shapely.geometry import Polygon
 from shapely.prepared import prep
 
@@ -30,6 +30,7 @@ from terragraph_planner.common.configuration.enums import (
     StatusType,
 )
 from terragraph_planner.common.constants import (
+    LAT_LON_EPSG,
     LOWER_BOUND_FOR_LOS_DISTANCE,
     UPPER_BOUND_FOR_LOS_DISTANCE,
 )
@@ -43,7 +44,11 @@ from terragraph_planner.common.exceptions import (
     LOSException,
     planner_assert,
 )
-from terragraph_planner.common.geos import GeoLocation
+from terragraph_planner.common.geos import (
+    GeoLocation,
+    TransformerLib,
+    lat_lon_to_utm_epsg,
+)
 from terragraph_planner.common.rf.link_budget_calculator import (
     fspl_based_estimation,
     get_max_tx_power,
@@ -200,7 +205,7 @@ def get_exclusion_zones(
     user_input_file_path: Optional[str], ll_boundary: Polygon
 ) -> List[Polygon]:
     """
-    Get a list of Polygon, representing the exclusion zones. boundary polygon
+    Get a list of Polygon, representing the exclusion zones in UTM. boundary polygon
     is used to filter out zones not fully contained in the boundary.
     """
     if user_input_file_path is not None and len(user_input_file_path) > 0:
@@ -209,7 +214,16 @@ def get_exclusion_zones(
         if ext == "kmz" or ext == "kml":
             exclusion_polygons = extract_polygons(user_input_file_path)
             prepared_boundary = prep(ll_boundary)
-            return list(filter(prepared_boundary.contains, exclusion_polygons))
+            # LOS is computed in the UTM zone of the boundary
+            centroid = ll_boundary.centroid
+            transformer = TransformerLib.get_tranformer(
+                LAT_LON_EPSG, lat_lon_to_utm_epsg(centroid.y, centroid.x)
+            )
+            return [
+                ops.transform(transformer.transform, polygon)
+                for polygon in exclusion_polygons
+                if prepared_boundary.contains(polygon)
+            ]
     return []
 
 
-- 
2.43.0


From a9465dc6f25c6984dac680914d794a4449fa099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 23/78] fix: do not write the stand-in for a missing elevation
 into the surface

---
 terragraph_planner/los/elevation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index fb741df..930ed13 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -133,9 +133,7 @@ class Elevation(GISData):
             # If there's no data in that grid, use find_closest_valid_elevation to get
             # the closest valid elevation
             if self.data_matrix[idx_y, idx_x] == NO_DATA_VALUE:
-                self.data_matrix[
-                    idx_y, idx_x
-                ] = self.find_closest_valid_elevation([(x, y)])[0]
+                return self.find_closest_valid_elevation([(x, y)])[0]
             return self.data_matrix[idx_y, idx_x]
         raise DataException("get_value() error: out of index")
 
-- 
2.43.0


From a68d4fa8388a6e389f4ba2e9f0cf988949d05b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 24/78] fix: keep missing elevations missing when adding or
 subtracting surfaces

---
 terragraph_planner/los/elevation.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 930ed13..7af1b39 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -279,10 +279,24 @@ class Elevation(GISData):
             and self.left_top_y == other_geogrids.left_top_y
         )
 
+    def _void_where_either_is_void(
+        self,
+        data_matrix: npt.NDArray[np.float32],
+        other_geogrids: "Elevation",
+    ) -> npt.NDArray[np.float32]:
+        data_matrix[
+            (self.data_matrix == NO_DATA_VALUE)
+            | (other_geogrids.data_matrix == NO_DATA_VALUE)
+        ] = NO_DATA_VALUE
+        return data_matrix
+
     def __add__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix + other_geogrids.data_matrix,
+                self._void_where_either_is_void(
+                    self.data_matrix + other_geogrids.data_matrix,
+                    other_geogrids,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
@@ -300,7 +314,10 @@ class Elevation(GISData):
     def __sub__(self, other_geogrids: "Elevation") -> "Elevation":
         if self._has_same_metadata(other_geogrids):
             result = Elevation(
-                self.data_matrix - other_geogrids.data_matrix,
+                self._void_where_either_is_void(
+                    self.data_matrix - other_geogrids.data_matrix,
+                    other_geogrids,
+                ),
                 self.utm_bounding_box,
                 self.x_resolution,
                 self.y_resolution,
-- 
2.43.0


From dde703adaf7da9e1c9f52873457f70aa9614218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 25/78] fix: the surface under an end site does not narrow its
 Fresnel zone

---
 terragraph_planner/los/fresnel_zone.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/los/fresnel_zone.py b/terragraph_planner/los/fresnel_zone.py
index 2e8b6e2..6bed2bc 100644
--- a/terragraph_planner/los/fresnel_zone.py
+++ b/terragraph_planner/los/fresnel_zone.py
@@ -132,9 +132,7 @@ class FresnelZone:
         and the height z is within or greater than the height of the ellipsoid.
         """
         x, y, z = point
-        if (x == self._site1.utm_x and y == self._site1.utm_y) or (
-            x == self._site2.utm_x and y == self._site2.utm_y
-        ):
+        if self._is_end_site_location(x, y):
             return False
 
         if self._los_confidence_threshold == 0:
@@ -160,6 +158,11 @@ class FresnelZone:
                the closest distance to the obstruction is where the height(z) is equal
         """
         x, y, z = point
+        # The surface under an end site doesn't obstruct, as in
+        # check_point_obstruct_inner_fresnel_zone. The equations degenerate there.
+        if self._is_end_site_location(x, y):
+            return self._outer_fresnel_radius
+
         height = self._solve_for_lower_ellipsoid_height(
             x, y, self._outer_fresnel_radius_sq
         )
@@ -173,6 +176,11 @@ class FresnelZone:
             return self._solve_for_max_fresnel_radius_2d(x, y)
         return self._solve_for_max_fresnel_radius_3d(x, y, z)
 
+    def _is_end_site_location(self, x: float, y: float) -> bool:
+        return (x == self._site1.utm_x and y == self._site1.utm_y) or (
+            x == self._site2.utm_x and y == self._site2.utm_y
+        )
+
     def _get_equation_constants(self) -> None:
         """
         Compute all the constant parameters in the 3 equations for the Fresnel Zone.
-- 
2.43.0


From e83380b9292612c72e9629e209422c69ba8653d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 26/78] fix: surface queries left of or above the surface do
 not read its opposite side

---
 terragraph_planner/los/elevation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 7af1b39..5be9cb4 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -259,8 +259,10 @@ class Elevation(GISData):
             (max_utm_x - self.left_top_x) / self.x_resolution
         )
         min_idx_y = math.ceil((self.left_top_y - max_utm_y) / self.y_resolution)
+        # Negative indices would be taken from the opposite side of the matrix
         result_matrix = self.data_matrix[
-            min_idx_y : max_idx_y + 1, min_idx_x : max_idx_x + 1
+            max(min_idx_y, 0) : max(max_idx_y + 1, 0),
+            max(min_idx_x, 0) : max(max_idx_x + 1, 0),
         ]
         # If the bound is outside of the region with valid data, return a 1 * 1 matrix with
         # the closest elevation as the only element in the matrix
-- 
2.43.0


From c83b764f956fcbfb457b08cf649bfe27ed20b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 27/78] fix: detect building centers when the highest point
 cannot be known

---
 terragraph_planner/los/building_group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terragraph_planner/los/building_group.py b/terragraph_planner/los/building_group.py
index 03bfdf8..7272032 100644
--- a/terragraph_planner/los/building_group.py
+++ b/terragraph_planner/los/building_group.py
@@ -175,6 +175,11 @@ class BuildingGroup(GISData):
             self.crs_epsg_code, LAT_LON_EPSG
         )
 
+        # The highest point is unknown without surface elevation data, in which
+        # case the center is used instead
+        if detect_highest and surface_elevation is None:
+            detect_center = True
+
         for building_id, building in enumerate(self.building_list):
             if detect_center:
                 site_candidates.append(
-- 
2.43.0


From e581ac6cf0b50fc505d706f0152e698b731362bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 28/78] fix: link new sites to the sites of the base topology

---
 terragraph_planner/los/helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 27092de..52cb932 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -909,6 +909,8 @@ def add_sites_to_topology(
         if not isinstance(site, DetectedSite):
             if site.site_id not in topology.sites:
                 topology.add_site(site)
+            # The sites of the base topology are already in the topology
+            if topology.sites[site.site_id] is site:
                 site_map[site_idx] = [site]
         else:
             detected_site = site
-- 
2.43.0


From aa95d2ec3e1a648203d586a9b53d2a9f78154c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 29/78] fix: place grid demand next to the antimeridian without
 circling the earth

---
 .../optimization/topology_demand.py               | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/topology_demand.py b/terragraph_planner/optimization/topology_demand.py
index 64b5991..a89928d 100644
--- a/terragraph_planner/optimization/topology_demand.py
+++ b/terragraph_planner/optimization/topology_demand.py
@@ -140,6 +140,10 @@ def _add_uniform_demand_sites(
     bottom = min(site.latitude for site in topology.sites.values())
     top = max(site.latitude for site in topology.sites.values())
 
+    # Count the longitude beyond the antimeridian
+    if antimeridian:
+        right += 360
+
     # Add some buffer
     dx, dy = grid_deltas(left, bottom, grid_spacing)
     left -= dx
@@ -148,21 +152,24 @@ def _add_uniform_demand_sites(
     top += dy
 
     longitude = left
-    while longitude <= right or (antimeridian and longitude >= left):
+    while longitude <= right:
         latitude = bottom
+        grid_longitude = longitude
+        if longitude > 180:
+            grid_longitude -= 360
+        elif longitude < -180:
+            grid_longitude += 360
         while latitude <= top:
             topology.add_demand_site(
                 DemandSite(
                     location=GeoLocation(
-                        latitude=latitude, longitude=longitude
+                        latitude=latitude, longitude=grid_longitude
                     ),
                     demand=demand,
                 )
             )
             latitude += dy
         longitude += dx
-        if longitude > 180:
-            longitude -= 360
 
 
 def _add_dn_sites_to_cn_connected_demand(topology: Topology) -> None:
-- 
2.43.0


From 0594df0bebae1c274dd27044fbf31c3ce8ea3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 30/78] fix: keep the demand of other models at the place of a
 customer site

---
 terragraph_planner/optimization/topology_demand.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/terragraph_planner/optimization/topology_demand.py b/terragraph_planner/optimization/topology_demand.py
index a89928d..5ccd851 100644
--- a/terragraph_planner/optimization/topology_demand.py
+++ b/terragraph_planner/optimization/topology_demand.py
@@ -105,6 +105,15 @@ def _add_cn_demand_sites(topology: Topology, demand: float) -> None:
                 demand=demand,
                 connected_sites=[cn],
             )
+            if demand_site.demand_id in topology.demand_sites:
+                # Another demand model already placed a demand site here, tell
+                # them apart by the altitude
+                demand_site = DemandSite(
+                    location=cn.location.copy(altitude=cn.altitude or 0.0),
+                    num_sites=cn.number_of_subscribers,
+                    demand=demand,
+                    connected_sites=[cn],
+                )
             topology.add_demand_site(demand_site)
             demand_locations[cn_lat_lon] = demand_site.demand_id
         else:
-- 
2.43.0


From c7bb77f224647753d6bc72bad30bcaf24e6fe0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 31/78] fix: order the sectors of a node around north when
 validating them

---
 .../optimization/topology_preparation.py         | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 23c301e..75f1080 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -411,19 +411,9 @@ def validate_site_sectors(sectors: List[Sector]) -> None:
         sin_sum = sum([math.sin(math.radians(a)) for a in azimuths])
         cos_sum = sum([math.cos(math.radians(a)) for a in azimuths])
         circ_mean = math.degrees(math.atan2(sin_sum, cos_sum)) % 360
-        l1 = [
-            a
-            for a in azimuths
-            if (a <= circ_mean and a > circ_mean - 180) or a > circ_mean + 180
-        ]
-        l1.sort()
-        l2 = [
-            a
-            for a in azimuths
-            if (a > circ_mean and a <= circ_mean + 180) or a <= circ_mean - 180
-        ]
-        l2.sort()
-        sector_azimuths[node_id] = l1 + l2
+        sector_azimuths[node_id] = sorted(
+            azimuths, key=lambda a: angle_delta(a, circ_mean)
+        )
 
     # First verify that each sector within the node are exactly horizontal scan
     # range apart. Note: azimuths should already be sorted
-- 
2.43.0


From 95b48740e1a4efde82d9e93217f451becdbd605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 32/78] fix: tolerate rounding in the separation of given
 sector nodes

---
 terragraph_planner/optimization/topology_preparation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 75f1080..7a84ca0 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -455,7 +455,8 @@ def validate_site_sectors(sectors: List[Sector]) -> None:
                 angle_diff1, angle_diff2, angle_diff3, angle_diff4
             )
             planner_assert(
-                min_angle_diff >= horizontal_scan_range,
+                min_angle_diff
+                > horizontal_scan_range - SECTOR_LINK_ANGLE_TOLERANCE,
                 f"Sector nodes are separated by {min_angle_diff:0.1f}, "
                 f"but must be separated by at least the horizontal scan range {horizontal_scan_range}",
                 OptimizerException,
-- 
2.43.0


From 37c2aa84bf753fda22521e3daadcff0441f3a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 33/78] fix: create sectors on unavailable sites without
 failing

---
 .../optimization/topology_preparation.py         | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 7a84ca0..c21d6be 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -151,6 +151,18 @@ def setup_node_structure(topology: Topology) -> None:
     )
 
 
+def _get_new_sector_status(site: Site) -> StatusType:
+    """
+    New sectors are candidates, except on inactive sites whose sectors must have
+    the same status as the site.
+    """
+    return (
+        site.status_type
+        if site.status_type in StatusType.inactive_status()
+        else StatusType.CANDIDATE
+    )
+
+
 def create_dn_sectors(topology: Topology) -> None:
 
     # sectors_for_sites is used to indicate that we have already added
@@ -196,7 +208,7 @@ def create_dn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=_get_new_sector_status(site),
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -247,7 +259,7 @@ def create_cn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=_get_new_sector_status(site),
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
-- 
2.43.0


From 78914967a5ba4ca629f348a6e7bde3160a02732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 34/78] fix: keep existing sectors when sectors are readjusted
 after planning

---
 .../optimization/topology_operations.py       | 28 ++++++++++++-------
 .../optimization/topology_preparation.py      |  4 ++-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index b2fb947..82d03bb 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -374,6 +374,13 @@ def readjust_sectors_post_opt(
     sectors_to_add = []
 
     for site_id, site in topology.sites.items():
+        # Existing sectors cannot be moved
+        if any(
+            sector.status_type == StatusType.EXISTING
+            for sector in sectors_for_sites[site_id]
+        ):
+            continue
+
         sector_params = site.device.sector_params
         neighbor_site_list = neighbor_sites[site_id]
 
@@ -430,18 +437,19 @@ def readjust_sectors_post_opt(
         topology.add_sector(sector)
 
     # Sectors on inactive CN sites do not have well-defined orientation even
-    # post-optimization; clear the sectors for all incoming links to such sites
+    # post-optimization and existing CN sectors only cover the links within
+    # their range; clear the sectors for all inactive incoming links to CNs
     # (also needed for validate_link_sectors in add_sectors_to_links)
     for link in topology.links.values():
-        if (
-            link.rx_site.site_type == SiteType.CN
-            and link.rx_site.status_type not in StatusType.active_status()
-        ):
-            planner_assert(
-                link.status_type not in StatusType.active_status(),
-                "Active link cannot be connected to inactive site",
-                OptimizerException,
-            )
+        if link.rx_site.site_type != SiteType.CN:
+            continue
+        planner_assert(
+            link.status_type not in StatusType.active_status()
+            or link.rx_site.status_type in StatusType.active_status(),
+            "Active link cannot be connected to inactive site",
+            OptimizerException,
+        )
+        if link.status_type not in StatusType.active_status():
             link.clear_sectors()
 
     add_sectors_to_links(
diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index c21d6be..418b17c 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -376,7 +376,9 @@ def add_sectors_to_links(
             tx_sector.channel = rx_sector.channel = link_channel_map[
                 link.link_id
             ]
-            tx_sector.status_type = rx_sector.status_type = StatusType.PROPOSED
+            for sector in (tx_sector, rx_sector):
+                if sector.status_type != StatusType.EXISTING:
+                    sector.status_type = StatusType.PROPOSED
 
 
 def validate_site_sectors(sectors: List[Sector]) -> None:
-- 
2.43.0


From 033a5d58335c60d3757898e68bed994ef40fac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 35/78] fix: keep multi-sector nodes whose sectors use
 different channels when readjusting

---
 .../optimization/topology_preparation.py             | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index 418b17c..e100599 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -815,8 +815,9 @@ def find_best_sectors(
             list(range(number_of_sectors_per_node)),
         )
     )
-    # Prune away the sector/node if it covers two links which must be on
-    # different sectors under the multi-channels plan
+    # Prune away the sector if it covers two links which must be on different
+    # sectors under the multi-channels plan; the sectors of a node may have
+    # different channels, so the node itself still covers both links
     if len(same_sector_violation_pairs) > 0:
         for j1, j2 in same_sector_violation_pairs:
             for (k, i) in sector_list:
@@ -826,13 +827,6 @@ def find_best_sectors(
                 ):
                     sector_azimuth_link_mat[k][i][j1] = 0
                     sector_azimuth_link_mat[k][i][j2] = 0
-            for k in range(num_azimuth_candidates):
-                if (
-                    node_azimuth_link_mat[k][j1] == 1
-                    and node_azimuth_link_mat[k][j2] == 1
-                ):
-                    node_azimuth_link_mat[k][j1] = 0
-                    node_azimuth_link_mat[k][j2] = 0
     # Prune away the combination of sectors/nodes pairs if they cover two links
     # separately and must be on the same sector, i.e. either violate different
     # sector angle limit / near-far ratio rules, or under the multi-channels plan
-- 
2.43.0


From 0ff1626bf783615141e9d71044cde53921c0a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 36/78] fix: accept active wired links, which have no sectors,
 when validating statuses

---
 terragraph_planner/optimization/topology_preparation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index e100599..ddc88df 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -1028,7 +1028,8 @@ def validate_topology_status(topology: Topology) -> None:
                 TopologyException,
             )
             planner_assert(
-                link.tx_sector is not None
+                not link.is_wireless
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 == StatusType.EXISTING
                 and link.rx_sector is not None
@@ -1046,7 +1047,8 @@ def validate_topology_status(topology: Topology) -> None:
                 TopologyException,
             )
             planner_assert(
-                link.tx_sector is not None
+                not link.is_wireless
+                or link.tx_sector is not None
                 and none_throws(link.tx_sector).status_type
                 in StatusType.active_status()
                 and link.rx_sector is not None
-- 
2.43.0


From ecd070542a7f1254daeeb80254049aac23f0adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 37/78] fix: exclude unreachable sites next to unavailable
 links without failing

---
 terragraph_planner/optimization/topology_operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index 82d03bb..8fb16ec 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -143,13 +143,15 @@ def mark_unreachable_components(
                 link = none_throws(
                     topology.get_link_by_site_ids(site_id, successor.site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type != StatusType.UNAVAILABLE:
+                    link.status_type = StatusType.UNREACHABLE
             predecessor_sites = topology.get_predecessor_sites(site)
             for predecessor in predecessor_sites:
                 link = none_throws(
                     topology.get_link_by_site_ids(predecessor.site_id, site_id)
                 )
-                link.status_type = StatusType.UNREACHABLE
+                if link.status_type != StatusType.UNAVAILABLE:
+                    link.status_type = StatusType.UNREACHABLE
 
     # Mark sectors on unreachable sites as unreachable
     for sector in topology.sectors.values():
-- 
2.43.0


From f2a474fc981cbf61a8ae8c1a36d3e9fc967824ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 38/78] fix: accept unavailable links at unreachable sites

---
 terragraph_planner/common/topology_models/link.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/topology_models/link.py b/terragraph_planner/common/topology_models/link.py
index 4e7d7a5..d41276c 100644
--- a/terragraph_planner/common/topology_models/link.py
+++ b/terragraph_planner/common/topology_models/link.py
@@ -379,7 +379,7 @@ class Link:
         if (
             self._tx_site.status_type == StatusType.UNREACHABLE
             or self._rx_site.status_type == StatusType.UNREACHABLE
-        ) and status_type != StatusType.UNREACHABLE:
+        ) and status_type not in StatusType.inactive_status():
             raise TopologyException(
                 "The status of the link with an unreachable tx or rx site must be unreachable."
             )
-- 
2.43.0


From 8d33601d9189814fb11392a7a65bade2ca48a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 39/78] fix: analyse networks without an active POP instead of
 failing

---
 terragraph_planner/optimization/topology_networkx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 056743a..5f75b13 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -56,6 +56,8 @@ def build_digraph(
         return 1 if mcs > 12 else mcs_cost.get(mcs, math.inf)
 
     G = nx.DiGraph()
+    # Without any POP, the supersource is not connected to anything
+    G.add_node(SUPERSOURCE)
     default_link_cost = 1
     for site_id, site in topology.sites.items():
         if site.site_type == SiteType.POP and site.status_type in status_filter:
@@ -103,8 +105,8 @@ def build_digraph(
         name="site_type",
     )
 
-    if len(G.nodes()) == 0 or len(G.edges()) == 0:
-        logger.warning("NetworkX graph does not have any nodes or edges.")
+    if len(G.edges()) == 0:
+        logger.warning("NetworkX graph does not have any edges.")
 
     return G
 
-- 
2.43.0


From ae0dd842f88e98b02b65af734b65091ac58e75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 40/78] fix: find disruptive links when active links carry
 nothing in the candidate graph

---
 .../optimization/topology_networkx.py         | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index 5f75b13..cb145a5 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -259,26 +259,28 @@ def find_most_disruptive_links(
         elif (u, v) in disruptive_edges:
             continue
 
-        has_rev = candidate_graph.has_edge(v, u)
+        # Links that cannot be used in the candidate graph (e.g., those without
+        # capacity) have nothing to be removed
+        candidate_edges = [
+            edge
+            for edge in ((u, v), (v, u))
+            if candidate_graph_copy.has_edge(*edge)
+        ]
+        if len(candidate_edges) == 0:
+            continue
 
         # If removing this edge from the candidate graph in addition
         # to the previous edges in disruptive_edges cuts off one or more
         # demands in the candidate graph, do not add this to disruptive_edges
-        candidate_graph_copy.remove_edge(u, v)
-        if has_rev:
-            candidate_graph_copy.remove_edge(v, u)
+        candidate_graph_copy.remove_edges_from(candidate_edges)
         descendents = nx.descendants(candidate_graph_copy, source=SUPERSOURCE)
 
         candidate_disruptions = candidate_connected_demands - descendents
 
         if len(candidate_disruptions) == 0:
-            disruptive_edges.add((u, v))
-            if has_rev:
-                disruptive_edges.add((v, u))
+            disruptive_edges.update(candidate_edges)
         else:
-            candidate_graph_copy.add_edge(u, v)
-            if has_rev:
-                candidate_graph_copy.add_edge(v, u)
+            candidate_graph_copy.add_edges_from(candidate_edges)
     end = time.time()
     logger.info(
         f"Found {len(disruptive_edges)} adversarial edges in {end-start:0.2f} seconds."
-- 
2.43.0


From 0538651a37da624567ed8c59c31680ae0c634a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 41/78] fix: keep the link attributes of the graph when looking
 for disjoint paths

---
 .../optimization/topology_networkx.py              | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/terragraph_planner/optimization/topology_networkx.py b/terragraph_planner/optimization/topology_networkx.py
index cb145a5..7ce3939 100644
--- a/terragraph_planner/optimization/topology_networkx.py
+++ b/terragraph_planner/optimization/topology_networkx.py
@@ -426,26 +426,20 @@ def disjoint_paths(topology: Topology, graph: nx.Graph) -> DisjointPath:
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
         # Example2: For a path: [SOURCE, POP, DN1, DN2, DN3, CN1, DEMAND]
         # We remove edges (POP, DN1), (DN1, DN2), (DN2, DN3)
-        link_ids = []
-        end = 0
+        removed_edges = []
         for n in range(1, len(shortest_path) - 2):
             tail_site_id = shortest_path[n + 1]
             if topology.sites[tail_site_id].site_type == SiteType.CN:
                 break
             edge = (shortest_path[n], shortest_path[n + 1])
-            link_id = "-".join(edge)
-            link_ids.append(link_id)
-            graph.remove_edge(shortest_path[n], shortest_path[n + 1])
-            end = n + 1
+            removed_edges.append((*edge, graph.edges[edge]))
+            graph.remove_edge(*edge)
 
         if nx.has_path(graph, source=SUPERSOURCE, target=demand_id):
             demand_with_disjoint_paths.add(demand_id)
 
         # Recover the graph back to initial version
-        for n in range(1, end):
-            graph.add_edge(
-                shortest_path[n], shortest_path[n + 1], link_id=link_ids[n - 1]
-            )
+        graph.add_edges_from(removed_edges)
     return DisjointPath(
         demand_with_disjoint_paths=demand_with_disjoint_paths,
         disconnected_demand_locations=disconnected_demand_locations,
-- 
2.43.0


From 3df7a1b7dea24e2c61a4aba9d2cc6f7cf9863804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 42/78] fix: simulate availability when links never work and
 within any time limit

---
 .../optimization/topology_availability.py            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/topology_availability.py b/terragraph_planner/optimization/topology_availability.py
index c75afc3..230378e 100644
--- a/terragraph_planner/optimization/topology_availability.py
+++ b/terragraph_planner/optimization/topology_availability.py
@@ -83,8 +83,9 @@ def compute_availability(
     _FAILED = 0
     _REPAIRED = 1
     _SIM_END = 2
-    events: List[Tuple[float, Tuple[str, str], int]] = [
-        (sim_length, ("", ""), _SIM_END)
+    # Events at the same time are processed in the order they are generated
+    events: List[Tuple[float, int, Tuple[str, str], int]] = [
+        (sim_length, 0, ("", ""), _SIM_END)
     ]
 
     # Generate failure and repair events for each backhaul edge; add to heap
@@ -107,11 +108,11 @@ def compute_availability(
         while curr < sim_length:
             time_to_failure = rng.exponential(mttf)
             curr += time_to_failure
-            heapq.heappush(events, (curr, key, _FAILED))
+            heapq.heappush(events, (curr, len(events), key, _FAILED))
 
             time_to_repair = rng.exponential(mttr)
             curr += time_to_repair
-            heapq.heappush(events, (curr, key, _REPAIRED))
+            heapq.heappush(events, (curr, len(events), key, _REPAIRED))
 
         processed_edges.add(key)
 
@@ -129,7 +130,7 @@ def compute_availability(
             logger.info(f"Simulating event {sim_events}...")
 
         # Get the next event
-        event_time, (u, v), event_type = heapq.heappop(events)
+        event_time, _, (u, v), event_type = heapq.heappop(events)
         planner_assert(
             event_time <= sim_length,
             "Event time should not exceed the desired simulation length",
@@ -178,6 +179,7 @@ def compute_availability(
 
         if (
             time_limit_sec is not None
+            and event_time > 0
             and (time.time() - start_time) > time_limit_sec
         ):
             actual_simulation_time = event_time
-- 
2.43.0


From aa91c25619399b8e0f885705acf801e45b6ed16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 43/78] fix: allow active CNs without active links when
 computing interference

---
 terragraph_planner/optimization/topology_interference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_interference.py b/terragraph_planner/optimization/topology_interference.py
index e25d9c5..8fdec25 100644
--- a/terragraph_planner/optimization/topology_interference.py
+++ b/terragraph_planner/optimization/topology_interference.py
@@ -418,7 +418,8 @@ def _compatible_polarity(
 
     tx_pol = tx_site.polarity
     if rx_site.site_type == SiteType.CN:
-        rx_pol = cn_polarities[rx_site.site_id]
+        # An active CN might not have any active incoming link
+        rx_pol = cn_polarities.get(rx_site.site_id, PolarityType.UNASSIGNED)
     else:
         rx_pol = rx_site.polarity
 
-- 
2.43.0


From 2202c15a50f7ebd5ff2cc4007457dcbc295b2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 44/78] fix: keep the MCS class of links within what their tx
 power permits

---
 .../optimization/topology_operations.py               | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index 8fb16ec..6941d9b 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -573,9 +573,10 @@ def update_link_caps_with_sinr(
                 np_dbm = get_noise_power(rx_data.sector_params)
                 mcs_snr_mbps_map = rx_data.sector_params.mcs_map
 
-                # Adjust MCS and capacity based on SINR
+                # Adjust MCS and capacity based on SINR; the tolerance is needed
+                # because the tx power is just enough to reach the threshold
                 link.mcs_level = get_mcs_from_snr(
-                    link.sinr_dbm, mcs_snr_mbps_map
+                    link.sinr_dbm + EPSILON, mcs_snr_mbps_map
                 )
                 link.capacity = get_link_capacity_from_mcs(
                     link.mcs_level, mcs_snr_mbps_map
@@ -620,7 +621,11 @@ def update_link_caps_with_sinr(
             continue
         rx_data = topology.sites[link.rx_site.site_id].device
         mcs_snr_mbps_map = rx_data.sector_params.mcs_map
-        link.mcs_level = get_mcs_from_snr(link.sinr_dbm, mcs_snr_mbps_map)
+        # The tx power may not be permitted for a higher MCS class
+        link.mcs_level = min(
+            link.mcs_level,
+            get_mcs_from_snr(link.sinr_dbm + EPSILON, mcs_snr_mbps_map),
+        )
         link.capacity = get_link_capacity_from_mcs(
             link.mcs_level, mcs_snr_mbps_map
         )
-- 
2.43.0


From f7a795e0c3a1526e21cf9f74e50894be56f6f310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 45/78] fix: report metrics of plans without active links or
 POPs

---
 .../optimization/topology_report.py              | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 4c54f58..2ea9705 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -379,9 +379,15 @@ def get_topology_metrics(
             * len(flow_solution.connected_demand_sites),
             minimum_bandwdith_for_connected_demand=flow_solution.buffer_decision,
             link_capacity_utilization=MetricStatistics(
-                avg=sum(active_link_utilization) / len(active_link_utilization),
-                max=max(active_link_utilization),
-                min=min(active_link_utilization),
+                avg=sum(active_link_utilization) / len(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                max=max(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
+                min=min(active_link_utilization)
+                if len(active_link_utilization) > 0
+                else 0,
             ),
         )
     else:
@@ -529,7 +535,9 @@ def get_topology_metrics(
 
     pop_failures = [len(v) for v in pop_failure_disruptions.values()]
     pop_fail_effect = MetricStatistics(
-        avg=sum(pop_failures) / component_counts.active_pop_sites,
+        avg=sum(pop_failures) / component_counts.active_pop_sites
+        if component_counts.active_pop_sites > 0
+        else 0,
         max=max(pop_failures) if len(pop_failures) > 0 else 0,
         min=min(pop_failures)
         if len(pop_failures) > 0
-- 
2.43.0


From 7e38438b937e088e103cd5c68224e364149d2bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 46/78] fix: report plans with active wired links

---
 terragraph_planner/optimization/topology_report.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 2ea9705..769bf46 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -420,7 +420,11 @@ def get_topology_metrics(
         and s.status_type in StatusType.active_status()
     }
     for link in topology.links.values():
-        if link.status_type in StatusType.active_status():
+        # Wired links do not have sectors
+        if (
+            link.status_type in StatusType.active_status()
+            and link.link_type != LinkType.ETHERNET
+        ):
             tx_sector = none_throws(link.tx_sector)
             rx_sector = none_throws(link.rx_sector)
 
-- 
2.43.0


From 62f6cc00eeace4636b38a803eb57870cce84bb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 47/78] fix: let existing sectors carry flow when computing the
 maximum flow

---
 .../optimization/ilp_models/flow_optimization.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/ilp_models/flow_optimization.py b/terragraph_planner/optimization/ilp_models/flow_optimization.py
index 96c8e54..b14d1cf 100644
--- a/terragraph_planner/optimization/ilp_models/flow_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/flow_optimization.py
@@ -181,9 +181,12 @@ class MaxFlowNetwork(NetworkOptimization):
         }
 
     def create_sector_decisions(self) -> None:
+        active_sectors = self.topology.get_sector_ids(
+            status_filter=StatusType.active_status()
+        )
         self.sector_vars = {
             (loc, sec, 0): 1
-            if sec in self.proposed_sectors.get(loc, set())
+            if sec in active_sectors.get(loc, set())
             else 0
             for loc in self.locations
             for sec in self.location_sectors[loc]
-- 
2.43.0


From 8ddf449938ba2664b3000ed20cd7bfed205787cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 48/78] fix: find reachable demand without changing the
 statuses of existing and unreachable elements

---
 .../ilp_models/network_optimization.py        | 28 +++--------------
 .../optimization/topology_operations.py       | 31 +++++++++++++++----
 2 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 72a4696..0fe816d 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -10,7 +10,6 @@ from time import time
 from typing import Any, Dict, List, Optional, Set, Tuple
 
 import xpress as xp
-from pyre_extensions import none_throws
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -155,31 +154,12 @@ class NetworkOptimization(OptimizationSetup):
         """
         if status_filter is None:
             status_filter = StatusType.reachable_status()
-        ignore_links = self._get_ignore_links()
-        ignore_sites = self._get_ignore_sites()
-        sites_status: Dict[str, StatusType] = {}
-        links_status: Dict[Tuple[str, str], StatusType] = {}
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            if link is not None:
-                links_status[(tx_site_id, rx_site_id)] = link.status_type
-                link.status_type = StatusType.UNREACHABLE
-        for site_id in ignore_sites:
-            site = self.topology.sites.get(site_id, None)
-            if site is not None:
-                sites_status[site_id] = site.status_type
-                site.status_type = StatusType.UNREACHABLE
         reachable_demand_sites = get_reachable_demand_sites(
-            self.topology, status_filter
+            self.topology,
+            status_filter,
+            ignore_sites=self._get_ignore_sites(),
+            ignore_links=self._get_ignore_links(),
         )
-        for (tx_site_id, rx_site_id) in ignore_links:
-            link = none_throws(
-                self.topology.get_link_by_site_ids(tx_site_id, rx_site_id)
-            )
-            link.status_type = links_status[(tx_site_id, rx_site_id)]
-        for site_id in ignore_sites:
-            site = none_throws(self.topology.sites.get(site_id, None))
-            site.status_type = sites_status[site_id]
         return {
             demand_id if num_dem == 0 else demand_id + "_" + str(num_dem)
             for demand_id, demand_data in self.topology.demand_sites.items()
diff --git a/terragraph_planner/optimization/topology_operations.py b/terragraph_planner/optimization/topology_operations.py
index 6941d9b..24c6dd4 100644
--- a/terragraph_planner/optimization/topology_operations.py
+++ b/terragraph_planner/optimization/topology_operations.py
@@ -57,13 +57,20 @@ logger: logging.Logger = logging.getLogger(__name__)
 def hops_from_pops(
     topology: Topology,
     status_filter: Optional[Set[StatusType]],
+    ignore_sites: Optional[Set[str]] = None,
+    ignore_links: Optional[Set[Tuple[str, str]]] = None,
 ) -> Dict[str, int]:
     if status_filter is None:
         status_filter = set(StatusType)
+    ignore_sites = ignore_sites or set()
+    ignore_links = ignore_links or set()
     hop_counts = {}
-    current_site_ids = topology.get_site_ids(
-        status_filter=status_filter,
-        site_type_filter={SiteType.POP},
+    current_site_ids = (
+        topology.get_site_ids(
+            status_filter=status_filter,
+            site_type_filter={SiteType.POP},
+        )
+        - ignore_sites
     )
     site_count = len(current_site_ids)
     if site_count == 0:
@@ -82,6 +89,8 @@ def hops_from_pops(
             if (
                 link.tx_site.site_id in current_site_ids
                 and link.status_type in status_filter
+                and (link.tx_site.site_id, link.rx_site.site_id)
+                not in ignore_links
             )
         ]
         new_ids = {
@@ -90,6 +99,7 @@ def hops_from_pops(
             for site_id in link
             if (
                 topology.sites[site_id].status_type in status_filter
+                and site_id not in ignore_sites
                 and site_id not in current_site_ids
             )
         }
@@ -103,12 +113,21 @@ def hops_from_pops(
 
 
 def get_reachable_demand_sites(
-    topology: Topology, status_filter: Set[StatusType]
+    topology: Topology,
+    status_filter: Set[StatusType],
+    ignore_sites: Optional[Set[str]] = None,
+    ignore_links: Optional[Set[Tuple[str, str]]] = None,
 ) -> Set[str]:
     """
-    Get all demand sites that can be reached from any POP.
+    Get all demand sites that can be reached from any POP, without using the
+    ignored sites and links.
     """
-    hops_counts = hops_from_pops(topology, status_filter=status_filter)
+    hops_counts = hops_from_pops(
+        topology,
+        status_filter=status_filter,
+        ignore_sites=ignore_sites,
+        ignore_links=ignore_links,
+    )
     reachable_demand_sites = set()
     for demand_site in topology.demand_sites.values():
         for site in demand_site.connected_sites:
-- 
2.43.0


From e60f406764ab2a1e6b60249ea3b609f3a71785e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 49/78] fix: report the outages caused by a link for both of
 its directions

---
 terragraph_planner/optimization/topology_report.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_report.py b/terragraph_planner/optimization/topology_report.py
index 769bf46..2c7b1d5 100644
--- a/terragraph_planner/optimization/topology_report.py
+++ b/terragraph_planner/optimization/topology_report.py
@@ -298,7 +298,10 @@ def add_statistics_to_topology(
                 if routing_solution
                 else 0.0
             )
-            link.breakdowns = len(edge_failure_disruptions.get(link_key, []))
+            # The failure of a link is the failure of both of its directions
+            link.breakdowns = len(
+                edge_failure_disruptions.get(link.sorted_site_ids, [])
+            )
 
     for site in topology.sites.values():
         site.breakdowns = (
-- 
2.43.0


From 4e9bfb9d7eb982fb531a919476c976058afb27f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 50/78] fix: escape the name of a topology in KML files

---
 terragraph_planner/common/data_io/topology_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/topology_serializer.py b/terragraph_planner/common/data_io/topology_serializer.py
index d3300fe..ebfaeaa 100644
--- a/terragraph_planner/common/data_io/topology_serializer.py
+++ b/terragraph_planner/common/data_io/topology_serializer.py
@@ -475,7 +475,7 @@ def _set_styles(markup_string: StringIO, topology_name: Optional[str]) -> None:
         <kml xmlns="http://www.opengis.net/kml/2.2"
              xmlns:gx="http://www.google.com/kml/ext/2.2">
         <Document>
-        <name>{topology_name or "topology"}</name>
+        <name>{escape(topology_name or "topology")}</name>
         <Schema name="site_metadata" id="site_metadata">
             <SimpleField name="description" type="string"></SimpleField>
             <SimpleField name="site_hash" type="string"></SimpleField>
-- 
2.43.0


From 207991580858ccce0a9918cf8bf0636405d22f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 51/78] fix: count demand of POPs and the common bandwidth when
 checking if POP capacity suffices

---
 .../ilp_models/cost_optimization.py           | 42 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/cost_optimization.py b/terragraph_planner/optimization/ilp_models/cost_optimization.py
index 8defa95..771ece9 100644
--- a/terragraph_planner/optimization/ilp_models/cost_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/cost_optimization.py
@@ -8,8 +8,13 @@ import time
 from typing import Optional
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
-from terragraph_planner.common.configuration.enums import DebugFile, StatusType
+from terragraph_planner.common.configuration.enums import (
+    DebugFile,
+    SiteType,
+    StatusType,
+)
 from terragraph_planner.common.topology_models.topology import Topology
+from terragraph_planner.optimization.constants import DEMAND, EPSILON
 from terragraph_planner.optimization.ilp_models.site_optimization import (
     SiteOptimization,
 )
@@ -51,6 +56,34 @@ class MinCostNetwork(SiteOptimization):
             f"{end_time - start_time:0.2f} seconds."
         )
 
+    def _get_max_direct_pop_throughput(self) -> float:
+        """
+        Find the total demand of the demand sites connected directly to a POP.
+        """
+        return sum(
+            self.demand_at_location[loc]
+            for loc in self.locations
+            if loc in self.type_sets[DEMAND]
+            and any(
+                self.location_to_type[site] == SiteType.POP
+                and site not in self.inactive_sites
+                for site, _ in self.incoming_links[loc]
+            )
+        )
+
+    def _get_required_throughput(self) -> float:
+        """
+        Find the total throughput needed for full coverage. When maximizing the
+        common bandwidth, each connected demand site only needs the minimum
+        demand.
+        """
+        if not self.params.maximize_common_bandwidth:
+            return self.max_throughput
+        return len(self.connected_demand_sites) * min(
+            (self.demand_at_location[loc] for loc in self.connected_demand_sites),
+            default=0.0,
+        )
+
     def solve(
         self,
         coverage_percentage: float,
@@ -73,7 +106,12 @@ class MinCostNetwork(SiteOptimization):
             pop_capacity=self.params.pop_capacity,
             status_filter=StatusType.reachable_status(),
         )
-        if max_capacity < self.max_throughput * self.params.coverage_percentage:
+        # Demand sites connected directly to a POP do not need its links
+        max_capacity += self._get_max_direct_pop_throughput()
+        if (
+            max_capacity
+            < self._get_required_throughput() * coverage_percentage - EPSILON
+        ):
             # The maximum capacity that the POPs can support is less than the
             # total demand in the area. Flow balance constraints can not be
             # satisfied.
-- 
2.43.0


From d5a79ecfae962170bd643137f23fb6b25679db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 52/78] fix: keep the active site of a location with co-located
 always active POPs

---
 .../optimization/ilp_models/network_optimization.py        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 0fe816d..4c5e066 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -634,10 +634,17 @@ class NetworkOptimization(OptimizationSetup):
             input_active_sites.add(i)
             input_active_sites.add(j)
         if self.params.always_active_pops:
+            # DNs/POPs that are already active cannot be exchanged
+            decided_geolocs = {
+                self.location_to_geoloc[i]
+                for i in input_active_sites
+                if self.location_to_type[i] in SiteType.dist_site_types()
+            }
             for i in self.locations:
                 if (
                     i in self.type_sets[SiteType.POP]
                     and i not in self.inactive_sites
+                    and self.location_to_geoloc[i] not in decided_geolocs
                 ):
                     input_active_sites.add(i)
         for locs in self.colocated_locations.values():
-- 
2.43.0


From b71d1d41fe8a9108e20ac568521e577fe48df40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 53/78] fix: never select inactive POPs when POPs are always
 active

---
 .../optimization/ilp_models/network_optimization.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 4c5e066..26a6ebf 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -835,11 +835,11 @@ class NetworkOptimization(OptimizationSetup):
             if (
                 self.params.always_active_pops
                 and loc in self.type_sets[SiteType.POP]
+                and loc not in self.inactive_sites
             ):
                 if (
-                    loc not in self.inactive_sites
                     # Colocated sites handled in create_colocated_site_relationship
-                    and len(
+                    len(
                         self.colocated_locations.get(
                             self.location_to_geoloc[loc], []
                         )
-- 
2.43.0


From 31127689644ff4eba0249eb702566a455d752204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 54/78] fix: maximize the common bandwidth of networks without
 connected demand

---
 .../optimization/ilp_models/network_optimization.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 26a6ebf..1a991c1 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -750,6 +750,8 @@ class NetworkOptimization(OptimizationSetup):
         if len(self.type_sets[DEMAND]) == 0:
             return
         if self.params.maximize_common_bandwidth:
+            if len(self.connected_demand_sites) == 0:
+                return
             # Common bandwidth cannot exceeed the minimum of the demand at all
             # connectable demand sites. Thus, x% coverage would mean that the
             # bandwidth at every demand site is at least x% of the minimum
-- 
2.43.0


From aaf6ac9346890490027575efb7baaf37cdcf989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 55/78] fix: do not require opposite polarities at active wired
 links

---
 .../optimization/ilp_models/network_optimization.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 1a991c1..22409c7 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -868,6 +868,8 @@ class NetworkOptimization(OptimizationSetup):
             return
         # If a link should be active, then the end sites must be of opposite polarities
         for (i, j) in self.links:
+            if (i, j) in self.wired_links:
+                continue
             if (i, j) in self.proposed_links or (i, j) in self.existing_links:
                 if i in self.odd and j in self.odd:
                     # Because only co-located CN sites can be upgraded and CN
-- 
2.43.0


From 0aeeaba85776315870ea687bbc7a821a0a65e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 56/78] fix: propose both directions of links with capacity in
 one direction only

---
 terragraph_planner/optimization/topology_optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 32dfae9..4a4bdc4 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -620,7 +620,11 @@ def _update_topology_links(
     """
     for link in topology.links.values():
         site_pair = (link.tx_site.site_id, link.rx_site.site_id)
-        decision = link_decisions.get(site_pair, 0)
+        # Both directions of a link are active even if one has no capacity
+        decision = max(
+            link_decisions.get(site_pair, 0),
+            link_decisions.get(site_pair[::-1], 0),
+        )
         current_status = link.status_type
         if current_status not in StatusType.immutable_status() | {
             StatusType.UNREACHABLE
-- 
2.43.0


From 4a86c44a8ae0f24ca8078f3f479119e38e11750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 57/78] fix: demote proposed sites without sectors that have no
 way from a POP

---
 terragraph_planner/optimization/topology_optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index 4a4bdc4..b07eb47 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -641,8 +641,8 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
     hop_counts = hops_from_pops(
         topology, status_filter=StatusType.active_status()
     )
-    for sector in topology.sectors.values():
-        site = sector.site
+    # Sites without wireless links do not have sectors
+    for site in topology.sites.values():
         if site.site_id not in hop_counts:
             current_site_status = site.status_type
             if current_site_status not in StatusType.immutable_status() | {
@@ -650,6 +650,8 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
             }:
                 site.status_type = StatusType.CANDIDATE
 
+    for sector in topology.sectors.values():
+        if sector.site.site_id not in hop_counts:
             current_sector_status = sector.status_type
             if current_sector_status not in StatusType.immutable_status() | {
                 StatusType.UNREACHABLE
-- 
2.43.0


From 99ba612ef8a578b023059c908b7e208b0faf19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 58/78] fix: add redundancy to networks with active DNs that
 cannot be reached

---
 .../optimization/ilp_models/redundancy_optimization.py    | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index a8568a9..01a1306 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -101,11 +101,9 @@ class RedundantNetwork(SiteOptimization):
         self.restricted_sites: Set[str] = {
             loc for link in self.restricted_links for loc in link
         }
-        planner_assert(
-            set(self.dns).issubset(self.restricted_sites),
-            "Restricted sites must include all active DNs",
-            OptimizerException,
-        )
+        # Active DNs without any of those links (e.g., existing DNs that cannot
+        # be reached) do not get any flow
+        self.restricted_sites.update(self.dns)
 
         # Variables created when building the optimization model
         self.problem = None  # pyre-fixme
-- 
2.43.0


From a0c7534bc12adbd7f159f34780177658d7090008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 59/78] fix: select links for redundancy in networks with
 candidate POPs

---
 .../optimization/ilp_models/redundancy_optimization.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index 01a1306..74a7d16 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -669,6 +669,7 @@ def compute_candidate_edges_for_redundancy(
         return ("_out", node_id)
 
     G = nx.DiGraph()
+    G.add_node(SUPERSOURCE)
     for site_id, site in topology.sites.items():
         if site.status_type in StatusType.inactive_status():
             continue
@@ -676,6 +677,13 @@ def compute_candidate_edges_for_redundancy(
         if site.site_type not in SiteType.dist_site_types():
             continue
 
+        # Extra POPs cannot be proposed for redundancy
+        if (
+            site.site_type == SiteType.POP
+            and site.status_type not in StatusType.active_status()
+        ):
+            continue
+
         # For node-disjoint paths, each node is split into an incoming edges
         # node and a outgoing edges node with a single edge of unit capacity
         # between them (except for POPs with pop_source_capacity)
-- 
2.43.0


From d4aee5bf112803d111e928e490f629afd98e5118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 60/78] fix: add redundancy to networks with all DNs on a
 straight line

---
 .../ilp_models/redundancy_optimization.py     | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
index 74a7d16..59f8faf 100644
--- a/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/redundancy_optimization.py
@@ -13,7 +13,7 @@ from typing import Any, List, Optional, Set, Tuple
 import networkx as nx
 import numpy as np
 import xpress as xp
-from scipy.spatial import Delaunay
+from scipy.spatial import Delaunay, QhullError
 
 from terragraph_planner.common.configuration.configs import OptimizerParams
 from terragraph_planner.common.configuration.enums import (
@@ -801,22 +801,25 @@ def compute_candidate_edges_for_redundancy(
         if len(dns) > 2:
             # Compute Delaunay triangulation (in 2D space)
             # Note: two proposed DNs with the same lat/lon should not occur
-            tri = Delaunay(
-                np.array(
+            points = np.array(
+                [
                     [
-                        [
-                            topology.sites[dn].latitude,
-                            topology.sites[dn].longitude,
-                        ]
-                        for dn in dns
+                        topology.sites[dn].latitude,
+                        topology.sites[dn].longitude,
                     ]
-                )
+                    for dn in dns
+                ]
             )
-
-            # Build graph from Delaunay triangulation
             delaunay_graph = nx.Graph()
-            for T in tri.simplices:
-                nx.add_cycle(delaunay_graph, T)
+            try:
+                tri = Delaunay(points)
+                # Build graph from Delaunay triangulation
+                for T in tri.simplices:
+                    nx.add_cycle(delaunay_graph, T)
+            except QhullError:
+                # There is no triangulation if the DNs are on a straight line,
+                # so connect each DN to the next one on that line
+                nx.add_path(delaunay_graph, np.lexsort(points.T).tolist())
 
             # Pair vertices together that are one hop or two hops away in
             # Delaunay triangulation; if graph is symmetric, only add one of
-- 
2.43.0


From e53a087870ed185f834ee23b16fe31c96d382380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 61/78] fix: no flow through inactive sites when minimizing
 interference

---
 .../ilp_models/interference_optimization.py        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index e90f03f..d2d59b1 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -180,6 +180,7 @@ class MinInterferenceNetwork(NetworkOptimization):
         self.create_flow_balance_with_shortage()
         self.create_pop_load_constraints()
         self.create_flow_link_relationship()
+        self.create_inactive_site_flow_constraints()
         self.create_symmetric_link_constraints()
         self.create_sector_constraints()
         self.create_sector_link_constraints()
@@ -477,6 +478,19 @@ class MinInterferenceNetwork(NetworkOptimization):
                     self.flow[(i, j)] <= link_cap * self.active_link[(i, j)]
                 )
 
+    def create_inactive_site_flow_constraints(self) -> None:
+        """
+        No flow is allowed through sites that are not active, including flow on
+        the links without binary decisions, e.g., wired links and those from
+        the supersource to the POPs.
+        """
+        for (i, j) in self.links:
+            if (
+                self.site_vars.get(i, 1) == 0
+                or self.site_vars.get(j, 1) == 0
+            ):
+                self.problem.addConstraint(self.flow[(i, j)] == 0)
+
     def create_cn_link_constraints(self) -> None:
         for cn in self.locations:
             if cn not in self.type_sets[SiteType.CN]:
-- 
2.43.0


From cf56c4aeeb7ae0f892964ca0709ec50358307690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 62/78] fix: minimize interference in networks with existing
 wired links without sectors

---
 .../optimization/ilp_models/interference_optimization.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index d2d59b1..f374a4d 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -368,6 +368,10 @@ class MinInterferenceNetwork(NetworkOptimization):
             if (i, j) in self.active_link:
                 self.problem.addConstraint(self.active_link[(i, j)] == 1)
 
+            # Wired links do not need sectors
+            if (i, j) in self.wired_links:
+                continue
+
             # Ensure one of the sectors are active if the link is active
             (sector1, sector2) = self.link_to_sectors.get((i, j), (None, None))
             planner_assert(
-- 
2.43.0


From 1e931b9a86ee33312fa89bdda0da6f327a9cf751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 63/78] fix: activate all sectors of a node together

---
 .../optimization/ilp_models/network_optimization.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/network_optimization.py b/terragraph_planner/optimization/ilp_models/network_optimization.py
index 22409c7..ae839f4 100644
--- a/terragraph_planner/optimization/ilp_models/network_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/network_optimization.py
@@ -385,7 +385,7 @@ class NetworkOptimization(OptimizationSetup):
                 if self.sector_to_type[sec] in IMAGINARY_SECTOR_TYPES:
                     continue  # skip imaginary sectors - they're their own thing
                 node_id = self.topology.sectors[sec].node_id
-                if (loc, sec) in self.sector_vars:
+                if (loc, sec, 0) in self.sector_vars:
                     nodes.setdefault((loc, node_id), []).append((loc, sec))
         for linked_sectors in nodes.values():
             for s1, s2 in itertools.combinations(linked_sectors, 2):
@@ -400,7 +400,7 @@ class NetworkOptimization(OptimizationSetup):
                     == xp.Sum(
                         self.sector_vars[loc2, sec2, channel]
                         for channel in range(self.number_of_channels)
-                        if (loc1, sec1, channel) in self.sector_vars
+                        if (loc2, sec2, channel) in self.sector_vars
                     )
                 )
 
-- 
2.43.0


From 79bd0c663f0451a072924f5fe11f3b738cc561fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 64/78] fix: count co-located POPs once when proposing POPs

---
 .../ilp_models/pop_proposal_optimization.py         | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ea864e3..20a5b4e 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -209,21 +209,22 @@ class POPProposalNetwork(SiteOptimization):
         params.maximize_common_bandwidth = maximize_common_bandwidth
 
     def create_pop_constraint(self) -> None:
+        # Only one of the POPs at the same location can be selected
         num_input_pops = len(
-            [
-                site.site_id
+            {
+                self.location_to_geoloc[site.site_id]
                 for site in self.input_topology.sites.values()
                 if site.site_type == SiteType.POP
                 and site.status_type not in StatusType.inactive_status()
-            ]
+            }
         )
         num_access_pops = len(
-            [
-                site.site_id
+            {
+                self.location_to_geoloc[site.site_id]
                 for site in self.topology.sites.values()
                 if site.site_type == SiteType.POP
                 and site.status_type not in StatusType.inactive_status()
-            ]
+            }
         )
 
         # Number of POPs to be proposed should equal to the number of extra
-- 
2.43.0


From fc8d02c3e3858057f914f779fc835c239214db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 65/78] fix: propose POPs only at locations without active DNs

---
 .../ilp_models/pop_proposal_optimization.py   | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 20a5b4e..b4b14ec 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -56,6 +56,7 @@ def add_duplicate_pop_to_dn_site(
         if (
             solution.site_decisions.get(site_id, 0) == 1
             and site.site_type == SiteType.DN
+            and site.status_type == StatusType.CANDIDATE
         ):
             # Create POP at same location as DN
             new_pop = Site(
@@ -141,28 +142,34 @@ def add_duplicate_pop_to_dn_site(
 def _compute_access_candidate_topology(topology: Topology) -> Topology:
     """
     Assume that all DNs can be used as POPs and the only links are from POPs to CNs.
-    This function converts DNs into POPs and deletes all backhaul links.
+    This function converts DNs into POPs and deletes all backhaul links. Active DNs
+    cannot be exchanged for POPs, so they and those co-located with them are kept.
     """
     topology_copy = deepcopy(topology)
     colocated_sites = topology_copy.get_colocated_sites()
 
-    # Find DNs that are co-located with other POPs
-    dns_on_pops = set()
+    # Find DNs that are co-located with other POPs or active DNs
+    dns_to_keep = set()
     for sites in colocated_sites.values():
-        any_pops = any(
+        any_pops_or_active_dns = any(
             topology_copy.sites[site_id].site_type == SiteType.POP
+            or (
+                topology_copy.sites[site_id].site_type == SiteType.DN
+                and topology_copy.sites[site_id].status_type
+                in StatusType.active_status()
+            )
             for site_id in sites
         )
-        if any_pops:
+        if any_pops_or_active_dns:
             for site_id in sites:
                 if topology_copy.sites[site_id].site_type == SiteType.DN:
-                    dns_on_pops.add(site_id)
+                    dns_to_keep.add(site_id)
 
     for site in topology_copy.sites.values():
         if site.site_type == SiteType.DN:
-            # No need to remove the DN if it's co-located with a POP because
-            # its incoming links will be removed
-            if site.site_id not in dns_on_pops:
+            # No need to remove the DN if it cannot become a POP because its
+            # incoming links will be removed
+            if site.site_id not in dns_to_keep:
                 # This is a hacky way to convert the DN into a POP; however, for
                 # the purposes here, it is a convenient work-around. Ideally,
                 # a copy of the site would be created and added along with copies
-- 
2.43.0


From b30b904893d9327d1fb155b4bda4f18901a247bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 66/78] fix: propose POPs in networks with existing POPs

---
 .../optimization/ilp_models/pop_proposal_optimization.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index b4b14ec..d201c1d 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -275,9 +275,10 @@ class POPProposalNetwork(SiteOptimization):
                 self.proposed_sites.add(site.site_id)
                 # Modifying the topology site status directly is not necessary
                 # but do it just to be consistent
-                self.topology.sites[
-                    site.site_id
-                ].status_type = StatusType.PROPOSED
+                if site.status_type != StatusType.EXISTING:
+                    self.topology.sites[
+                        site.site_id
+                    ].status_type = StatusType.PROPOSED
 
         self.set_up_problem_skeleton(
             rel_stop=self.params.pop_proposal_rel_stop,
-- 
2.43.0


From 4f795f54470c9d93b11651db4978dfb885d03204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 67/78] fix: plan without extra POPs when none can be proposed

---
 .../optimization/ilp_models/pop_proposal_optimization.py | 9 +--------
 terragraph_planner/optimization/topology_optimization.py | 9 ++++++++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index d201c1d..3a811d8 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -201,20 +201,13 @@ class POPProposalNetwork(SiteOptimization):
         # Do not propose all POPs
         # Connected demand site optimization is not currently set up to handle
         # POP constraints, so do not run common bandwidth
-        ignore_polarities = params.ignore_polarities
-        always_active_pops = params.always_active_pops
-        maximize_common_bandwidth = params.maximize_common_bandwidth
+        params = deepcopy(params)
         params.ignore_polarities = True
         params.always_active_pops = False
         params.maximize_common_bandwidth = False
 
         super(POPProposalNetwork, self).__init__(access_topology, params, set())
 
-        # Restore parameter values
-        params.ignore_polarities = ignore_polarities
-        params.always_active_pops = always_active_pops
-        params.maximize_common_bandwidth = maximize_common_bandwidth
-
     def create_pop_constraint(self) -> None:
         # Only one of the POPs at the same location can be selected
         num_input_pops = len(
diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index b07eb47..f8ed987 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -279,7 +279,14 @@ def _run_propose_extra_pops_step(
             )
         return
 
-    pop_proposal_network = POPProposalNetwork(topology, params)
+    try:
+        pop_proposal_network = POPProposalNetwork(topology, params)
+    except OptimizerException as e:
+        logger.warning(
+            f"No extra POPs can be proposed: {e} Planning will proceed without "
+            "extra proposed POPs."
+        )
+        return None
     solution = pop_proposal_network.propose_pops()
 
     if solution is not None:
-- 
2.43.0


From 3aa24361999b52f73c7933f09b624b04fb926886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 68/78] fix: describe the incoming links of proposed POPs like
 those of the DNs

---
 .../optimization/ilp_models/pop_proposal_optimization.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 3a811d8..ba83009 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -125,8 +125,8 @@ def add_duplicate_pop_to_dn_site(
                 tx_sector=rx_link.tx_sector,
                 rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
                 status_type=StatusType.CANDIDATE,
-                is_wireless=tx_link.is_wireless,
-                confidence_level=tx_link.confidence_level,
+                is_wireless=rx_link.is_wireless,
+                confidence_level=rx_link.confidence_level,
             )
             new_rx_link.link_budget = deepcopy(rx_link.link_budget)
             topology.add_link(new_rx_link)
-- 
2.43.0


From 8f58c682c4579caaaa02c143930f74223d5613d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 69/78] fix: duplicate the wired links of DNs proposed as POPs

---
 .../ilp_models/pop_proposal_optimization.py      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index ba83009..4257bfa 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -95,12 +95,16 @@ def add_duplicate_pop_to_dn_site(
             tx_link = none_throws(
                 topology.get_link_by_site_ids(dn_id, neighbor_site.site_id)
             )
-            if tx_link.tx_sector is None or tx_link.rx_sector is None:
+            if tx_link.is_wireless and (
+                tx_link.tx_sector is None or tx_link.rx_sector is None
+            ):
                 continue
             new_tx_link = Link(
                 tx_site=pop_site,
                 rx_site=neighbor_site,
-                tx_sector=duplicated_sectors[tx_link.tx_sector.sector_id],
+                tx_sector=duplicated_sectors[tx_link.tx_sector.sector_id]
+                if tx_link.tx_sector is not None
+                else None,
                 rx_sector=tx_link.rx_sector,
                 status_type=StatusType.CANDIDATE,
                 is_wireless=tx_link.is_wireless,
@@ -117,13 +121,17 @@ def add_duplicate_pop_to_dn_site(
             rx_link = none_throws(
                 topology.get_link_by_site_ids(neighbor_site.site_id, dn_id)
             )
-            if rx_link.tx_sector is None or rx_link.rx_sector is None:
+            if rx_link.is_wireless and (
+                rx_link.tx_sector is None or rx_link.rx_sector is None
+            ):
                 continue
             new_rx_link = Link(
                 tx_site=neighbor_site,
                 rx_site=pop_site,
                 tx_sector=rx_link.tx_sector,
-                rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id],
+                rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id]
+                if rx_link.rx_sector is not None
+                else None,
                 status_type=StatusType.CANDIDATE,
                 is_wireless=rx_link.is_wireless,
                 confidence_level=rx_link.confidence_level,
-- 
2.43.0


From 5673ceba6eebf4cedb80d18a2a2bce92fe5fb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 70/78] fix: keep unusable links of DNs proposed as POPs
 unusable

---
 .../ilp_models/pop_proposal_optimization.py     | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
index 4257bfa..4a89876 100644
--- a/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/pop_proposal_optimization.py
@@ -37,6 +37,17 @@ from terragraph_planner.optimization.topology_operations import (
 logger: logging.Logger = logging.getLogger(__name__)
 
 
+def _get_duplicate_status(status_type: StatusType) -> StatusType:
+    """
+    Duplicates are candidates, unless what they are copied from cannot be used.
+    """
+    return (
+        status_type
+        if status_type in StatusType.inactive_status()
+        else StatusType.CANDIDATE
+    )
+
+
 def add_duplicate_pop_to_dn_site(
     topology: Topology, solution: OptimizationSolution
 ) -> None:
@@ -79,7 +90,7 @@ def add_duplicate_pop_to_dn_site(
                     node_id=sector.node_id,
                     position_in_node=sector.position_in_node,
                     ant_azimuth=sector.ant_azimuth,
-                    status_type=StatusType.CANDIDATE,
+                    status_type=_get_duplicate_status(sector.status_type),
                     channel=sector.channel,
                 )
                 topology.add_sector(new_sector)
@@ -106,7 +117,7 @@ def add_duplicate_pop_to_dn_site(
                 if tx_link.tx_sector is not None
                 else None,
                 rx_sector=tx_link.rx_sector,
-                status_type=StatusType.CANDIDATE,
+                status_type=_get_duplicate_status(tx_link.status_type),
                 is_wireless=tx_link.is_wireless,
                 confidence_level=tx_link.confidence_level,
             )
@@ -132,7 +143,7 @@ def add_duplicate_pop_to_dn_site(
                 rx_sector=duplicated_sectors[rx_link.rx_sector.sector_id]
                 if rx_link.rx_sector is not None
                 else None,
-                status_type=StatusType.CANDIDATE,
+                status_type=_get_duplicate_status(rx_link.status_type),
                 is_wireless=rx_link.is_wireless,
                 confidence_level=rx_link.confidence_level,
             )
-- 
2.43.0


From df2447d6c0b3b525a82da033e6607121476621a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 71/78] fix: plan networks with active links without sectors

---
 .../optimization/topology_preparation.py      | 77 +++++++++++++++++--
 1 file changed, 69 insertions(+), 8 deletions(-)

diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index ddc88df..fee42ac 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -151,16 +151,55 @@ def setup_node_structure(topology: Topology) -> None:
     )
 
 
-def _get_new_sector_status(site: Site) -> StatusType:
+def _get_active_beams(
+    topology: Topology,
+) -> Dict[str, List[Tuple[float, StatusType]]]:
+    """
+    For each site, the azimuths of its active wireless links and their status.
+    """
+    active_beams: Dict[str, List[Tuple[float, StatusType]]] = {}
+    for link in topology.links.values():
+        if (
+            link.is_wireless
+            and link.status_type in StatusType.active_status()
+        ):
+            active_beams.setdefault(link.tx_site.site_id, []).append(
+                (link.tx_beam_azimuth, link.status_type)
+            )
+            active_beams.setdefault(link.rx_site.site_id, []).append(
+                (link.rx_beam_azimuth, link.status_type)
+            )
+    return active_beams
+
+
+def _get_new_node_status_types(
+    site: Site,
+    nodes: List[List[float]],
+    active_beams: List[Tuple[float, StatusType]],
+) -> List[StatusType]:
     """
     New sectors are candidates, except on inactive sites whose sectors must have
-    the same status as the site.
+    the same status as the site and in nodes with active links, which must be
+    active as well.
     """
-    return (
+    status_types = [
         site.status_type
         if site.status_type in StatusType.inactive_status()
         else StatusType.CANDIDATE
-    )
+        for _ in nodes
+    ]
+    azimuths = [
+        (node_id, sector_azimuth)
+        for node_id, node in enumerate(nodes)
+        for sector_azimuth in node
+    ]
+    for beam_azimuth, status_type in active_beams if len(azimuths) > 0 else []:
+        node_id, _ = min(
+            azimuths, key=lambda x: abs(angle_delta(x[1], beam_azimuth))
+        )
+        if status_types[node_id] != StatusType.EXISTING:
+            status_types[node_id] = status_type
+    return status_types
 
 
 def create_dn_sectors(topology: Topology) -> None:
@@ -168,6 +207,7 @@ def create_dn_sectors(topology: Topology) -> None:
     # sectors_for_sites is used to indicate that we have already added
     # DN antennas
     sectors_for_sites = {}
+    active_beams = _get_active_beams(topology)
     for sector_id, sector in topology.sectors.items():
         if sector.sector_type == SectorType.DN:
             sectors_for_sites.setdefault(sector.site.site_id, []).append(
@@ -201,6 +241,9 @@ def create_dn_sectors(topology: Topology) -> None:
             backhaul_link_type_weight=None,
             sector_channel_list=None,
         )
+        status_types = _get_new_node_status_types(
+            site, nodes, active_beams.get(site_id, [])
+        )
         for i, node in enumerate(nodes):
             for j, sector_azimuth in enumerate(node):
                 n = Sector(
@@ -208,7 +251,7 @@ def create_dn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=_get_new_sector_status(site),
+                    status_type=status_types[i],
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -218,19 +261,27 @@ def create_cn_sectors(topology: Topology) -> None:
     # sectors_for_sites is used to indicate that we have already added
     # CN antennas
     sectors_for_sites = {}
+    active_beams = _get_active_beams(topology)
     for sector_id, sector in topology.sectors.items():
         if sector.sector_type == SectorType.CN:
             sectors_for_sites.setdefault(sector.site.site_id, []).append(
                 sector_id
             )
 
-    # Get all wireless neighbor sites for CNs here.
+    # Get all wireless neighbor sites for CNs here. The sectors of CNs with
+    # existing links point at those neighbors, since they cannot be moved later.
     cn_wireless_neighbor_sites = {}
+    cn_existing_neighbor_sites = {}
     for link in topology.links.values():
         if link.is_wireless and link.rx_site.site_type == SiteType.CN:
             cn_wireless_neighbor_sites.setdefault(
                 link.rx_site.site_id, []
             ).append(topology.sites[link.tx_site.site_id])
+            if link.status_type == StatusType.EXISTING:
+                cn_existing_neighbor_sites.setdefault(
+                    link.rx_site.site_id, []
+                ).append(topology.sites[link.tx_site.site_id])
+    cn_wireless_neighbor_sites.update(cn_existing_neighbor_sites)
 
     for site_id, site in topology.sites.items():
         if (
@@ -252,6 +303,9 @@ def create_cn_sectors(topology: Topology) -> None:
             number_of_sectors_per_node=sector_params.number_sectors_per_node,
             horizontal_scan_range=sector_params.horizontal_scan_range,
         )
+        status_types = _get_new_node_status_types(
+            site, nodes, active_beams.get(site_id, [])
+        )
         for i, node in enumerate(nodes):
             for j, sector_azimuth in enumerate(node):
                 n = Sector(
@@ -259,7 +313,7 @@ def create_cn_sectors(topology: Topology) -> None:
                     node_id=i,
                     position_in_node=j,
                     ant_azimuth=sector_azimuth,
-                    status_type=_get_new_sector_status(site),
+                    status_type=status_types[i],
                 )
                 sectors_for_sites.setdefault(site_id, []).append(n.sector_id)
                 topology.add_sector(n)
@@ -312,9 +366,15 @@ def add_sectors_to_links(
         horizontal_scan_range_from = (
             site_from.device.sector_params.horizontal_scan_range
         )
+        # Existing CN sectors cannot be moved
         horizontal_scan_range_to = (
             site_to.device.sector_params.horizontal_scan_range
-            if site_to.site_type != SiteType.CN or not force_full_cn_scan_range
+            if site_to.site_type != SiteType.CN
+            or not force_full_cn_scan_range
+            or any(
+                topology.sectors[sector_id].status_type == StatusType.EXISTING
+                for sector_id in sectors_for_sites.get(site_to.site_id, [])
+            )
             else FULL_ROTATION_ANGLE
         )
 
@@ -510,6 +570,7 @@ def validate_link_sectors(
     if (
         force_full_cn_scan_range
         and none_throws(link.rx_sector).site.site_type == SiteType.CN
+        and none_throws(link.rx_sector).status_type != StatusType.EXISTING
     ):
         return
     rx_horizontal_scan_range = (
-- 
2.43.0


From 74217016fb83ba7abaf418abdcb8657e703ed226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 72/78] fix: do not choose links that no POP can reach when
 minimizing interference

---
 .../ilp_models/interference_optimization.py   | 35 +++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/interference_optimization.py b/terragraph_planner/optimization/ilp_models/interference_optimization.py
index f374a4d..78776b0 100644
--- a/terragraph_planner/optimization/ilp_models/interference_optimization.py
+++ b/terragraph_planner/optimization/ilp_models/interference_optimization.py
@@ -398,13 +398,44 @@ class MinInterferenceNetwork(NetworkOptimization):
                     == 1
                 )
 
-        # Ensure that inactive links are inactive
+        # Ensure that inactive links are inactive, as well as links that cannot
+        # carry any traffic because no active POP can reach them, unless they
+        # already exist
+        connected_sites = self._get_connected_sites()
         for (i, j) in self.links:
-            if (i, j) not in self.inactive_links:
+            if (i, j) not in self.inactive_links and (
+                (i, j) in self.existing_links
+                or i in connected_sites
+                and j in connected_sites
+            ):
                 continue
             if (i, j) in self.active_link:
                 self.problem.addConstraint(self.active_link[(i, j)] == 0)
 
+    def _get_connected_sites(self) -> Set[str]:
+        """
+        Find the active sites that can be reached from the active POPs through
+        links with positive capacity between active sites.
+        """
+        connected_sites = {
+            i
+            for i, active in self.site_vars.items()
+            if active == 1 and self.location_to_type[i] == SiteType.POP
+        }
+        sites_to_visit = list(connected_sites)
+        while len(sites_to_visit) > 0:
+            for (i, j) in self.outgoing_links[sites_to_visit.pop()]:
+                if (
+                    j in connected_sites
+                    or self.site_vars.get(j, 0) == 0
+                    or self.link_capacities[(i, j)] <= 0
+                    or (i, j) in self.inactive_links
+                ):
+                    continue
+                connected_sites.add(j)
+                sites_to_visit.append(j)
+        return connected_sites
+
     def create_multi_point_contstraints(self) -> None:
         """
         A DN sector can connect to a limited number of other DN and
-- 
2.43.0


From be0352f2ccdf5bc9e1704572f223571dfcd9a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 73/78] fix: accept existing links at sites that are superseded
 by co-located sites

---
 terragraph_planner/common/topology_models/link.py       | 7 +++++++
 terragraph_planner/optimization/topology_preparation.py | 8 +++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/common/topology_models/link.py b/terragraph_planner/common/topology_models/link.py
index d41276c..b330317 100644
--- a/terragraph_planner/common/topology_models/link.py
+++ b/terragraph_planner/common/topology_models/link.py
@@ -282,6 +282,13 @@ class Link:
     def link_channel(self) -> int:
         if self.status_type in StatusType.active_status():
             if self.tx_sector and self.rx_sector:
+                # A link at a site that is superseded by a co-located site is
+                # not used, so there is no channel at that end
+                if UNASSIGNED_CHANNEL in (
+                    self.tx_sector.channel,
+                    self.rx_sector.channel,
+                ):
+                    return UNASSIGNED_CHANNEL
                 planner_assert(
                     self.tx_sector.channel == self.rx_sector.channel,
                     "Channels of the two sectors of a link should be the same.",
diff --git a/terragraph_planner/optimization/topology_preparation.py b/terragraph_planner/optimization/topology_preparation.py
index fee42ac..429c37d 100644
--- a/terragraph_planner/optimization/topology_preparation.py
+++ b/terragraph_planner/optimization/topology_preparation.py
@@ -43,6 +43,7 @@ from terragraph_planner.common.topology_models.link import Link
 from terragraph_planner.common.topology_models.sector import Sector
 from terragraph_planner.common.topology_models.site import Site
 from terragraph_planner.common.topology_models.topology import Topology
+from terragraph_planner.optimization.constants import UNASSIGNED_CHANNEL
 from terragraph_planner.optimization.topology_demand import (
     add_demand_to_topology,
 )
@@ -433,9 +434,10 @@ def add_sectors_to_links(
             link_channel_map is not None
             and link.status_type in StatusType.active_status()
         ):
-            tx_sector.channel = rx_sector.channel = link_channel_map[
-                link.link_id
-            ]
+            if link_channel_map[link.link_id] != UNASSIGNED_CHANNEL:
+                tx_sector.channel = rx_sector.channel = link_channel_map[
+                    link.link_id
+                ]
             for sector in (tx_sector, rx_sector):
                 if sector.status_type != StatusType.EXISTING:
                     sector.status_type = StatusType.PROPOSED
-- 
2.43.0


From fa56c2865e1df8abb10da8c1abe822ce9a9f41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 74/78] fix: demote links of components without POPs along with
 their sectors

---
 terragraph_planner/optimization/topology_optimization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/terragraph_planner/optimization/topology_optimization.py b/terragraph_planner/optimization/topology_optimization.py
index f8ed987..462c27f 100644
--- a/terragraph_planner/optimization/topology_optimization.py
+++ b/terragraph_planner/optimization/topology_optimization.py
@@ -665,8 +665,8 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
             }:
                 sector.status_type = StatusType.CANDIDATE
 
-    # Some active links may have ended up with candidate end-sites
-    # Ensure that those links are also set to candidate.
+    # Some active links may have ended up with candidate end-sites or candidate
+    # sectors. Ensure that those links are also set to candidate.
     for link in topology.links.values():
         if link.status_type in StatusType.active_status():
             tx_site = link.tx_site
@@ -674,6 +674,8 @@ def _remove_disconnected_components_from_topology(topology: Topology) -> None:
             if (
                 tx_site.status_type == StatusType.CANDIDATE
                 or rx_site.status_type == StatusType.CANDIDATE
+                or tx_site.site_id not in hop_counts
+                or rx_site.site_id not in hop_counts
             ):
                 current_link_status = link.status_type
                 if current_link_status not in StatusType.immutable_status() | {
-- 
2.43.0


From 8509838f555c222a79c3949ddde08691b9f8291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 75/78] fix: serve the demand at POPs if no link has any
 capacity

---
 .../optimization/ilp_models/optimization_setup.py         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/terragraph_planner/optimization/ilp_models/optimization_setup.py b/terragraph_planner/optimization/ilp_models/optimization_setup.py
index 6ee0338..313841c 100644
--- a/terragraph_planner/optimization/ilp_models/optimization_setup.py
+++ b/terragraph_planner/optimization/ilp_models/optimization_setup.py
@@ -256,9 +256,11 @@ class OptimizationSetup(object):
 
         # Add in the demand sites as vertices
         max_link_cap = (
-            max(link.capacity for link in self.topology.links.values())
-            if len(self.topology.links) > 0
-            else self.params.pop_capacity
+            max(
+                (link.capacity for link in self.topology.links.values()),
+                default=0,
+            )
+            or self.params.pop_capacity
         )
         for demand_id, demand_data in self.topology.demand_sites.items():
             # If the demand site is connected to only one location and
-- 
2.43.0


From 808950533f94247109207944cb57b75685e5c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 76/78] fix: accept outlines with a valid vertical system

---
 terragraph_planner/common/data_io/patterns.py     | 9 +++++++--
 terragraph_planner/common/data_io/shared_rules.py | 5 +++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/terragraph_planner/common/data_io/patterns.py b/terragraph_planner/common/data_io/patterns.py
index d2e4e09..88e318e 100644
--- a/terragraph_planner/common/data_io/patterns.py
+++ b/terragraph_planner/common/data_io/patterns.py
@@ -24,8 +24,13 @@ class GISData:
 
     @property
     def crs_epsg_code(self) -> int:
-        self.spatial_reference.AutoIdentifyEPSG()
-        return int(self.spatial_reference.GetAuthorityCode(None))
+        spatial_reference = self.spatial_reference
+        # The code of a compound system is that of its horizontal part
+        if spatial_reference.IsCompound() == 1:
+            spatial_reference = spatial_reference.Clone()
+            spatial_reference.StripVertical()
+        spatial_reference.AutoIdentifyEPSG()
+        return int(spatial_reference.GetAuthorityCode(None))
 
 
 DataType = TypeVar("DataType", bound=GISData)
diff --git a/terragraph_planner/common/data_io/shared_rules.py b/terragraph_planner/common/data_io/shared_rules.py
index fedac0d..6b4bb05 100644
--- a/terragraph_planner/common/data_io/shared_rules.py
+++ b/terragraph_planner/common/data_io/shared_rules.py
@@ -51,8 +51,9 @@ def vertical_crs_is_valid_if_present_rule(
                     f"vertical unit must be one of {valid_unit_names}"
                 )
             )
-        if (vert_axis0 is None or vert_axis0 != "up") and (
-            vert_axis1 is None or vert_axis1 != "up"
+        # GDAL gives the name of the direction in upper case
+        if (vert_axis0 is None or vert_axis0.casefold() != "up") and (
+            vert_axis1 is None or vert_axis1.casefold() != "up"
         ):
             errors.append(
                 DataException(
-- 
2.43.0


From 2b635b658a31874a29d85172543274c8106f6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 77/78] fix: bring surfaces of different resolutions to the
 same cells before adding them

---
 terragraph_planner/los/elevation.py | 19 +++++++++++++++++++
 terragraph_planner/los/helper.py    | 10 +++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/los/elevation.py b/terragraph_planner/los/elevation.py
index 5be9cb4..a3794d4 100644
--- a/terragraph_planner/los/elevation.py
+++ b/terragraph_planner/los/elevation.py
@@ -187,6 +187,25 @@ class Elevation(GISData):
         self.x_resolution = x_resolution
         self.y_resolution = y_resolution
 
+    def align_to(self, other: "Elevation") -> None:
+        """
+        Re-sample data_matrix by nearest neighbor to the cells of the other one
+        """
+        idx_xs = []
+        for idx_x in range(other.x_size):
+            utm_x, utm_y = other.idx_to_utm(idx_x, 0)
+            idx_xs.append(self.utm_to_idx(utm_x, utm_y)[0])
+        idx_ys = []
+        for idx_y in range(other.y_size):
+            utm_x, utm_y = other.idx_to_utm(0, idx_y)
+            idx_ys.append(self.utm_to_idx(utm_x, utm_y)[1])
+        self.data_matrix = self.data_matrix[np.ix_(idx_ys, idx_xs)]
+        self.utm_bounding_box = other.utm_bounding_box
+        self.x_resolution = other.x_resolution
+        self.y_resolution = other.y_resolution
+        self.left_top_x = other.left_top_x
+        self.left_top_y = other.left_top_y
+
     def get_data_as_list(self) -> List[Tuple[float, float, float]]:
         """
         Get data in the format of List[Tuple[utm_x, utm_y, elevation]]
diff --git a/terragraph_planner/los/helper.py b/terragraph_planner/los/helper.py
index 52cb932..a978f2a 100644
--- a/terragraph_planner/los/helper.py
+++ b/terragraph_planner/los/helper.py
@@ -981,10 +981,18 @@ def upsample_to_same_resolution(
     elevation1: Elevation, elevation2: Elevation
 ) -> None:
     """
-    Upsample the two elevations to the same resolution.
+    Upsample the two elevations to the same resolution and the same cells.
     The minimum x/y resolution of the two input elevations is set to match.
     """
     x_res = min(elevation1.x_resolution, elevation2.x_resolution)
     y_res = min(elevation1.y_resolution, elevation2.y_resolution)
+    elevation1_is_finer = (
+        elevation1.x_resolution == x_res and elevation1.y_resolution == y_res
+    )
     elevation1.set_resolution(x_res, y_res)
     elevation2.set_resolution(x_res, y_res)
+    # Each of them has been cropped to whole cells of its own
+    if elevation1_is_finer:
+        elevation2.align_to(elevation1)
+    else:
+        elevation1.align_to(elevation2)
-- 
2.43.0


From c6023506b883f13dd5c104e78b1834e3ddd3dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 78/78] fix: keep elevation cells that are not square when they
 need no projection

---
 .../common/data_io/elevation_loader.py        | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/terragraph_planner/common/data_io/elevation_loader.py b/terragraph_planner/common/data_io/elevation_loader.py
index 0179178..8c0cafb 100644
--- a/terragraph_planner/common/data_io/elevation_loader.py
+++ b/terragraph_planner/common/data_io/elevation_loader.py
@@ -6,7 +6,7 @@
 import logging
 import math
 from itertools import chain
-from typing import List
+from typing import Any, Dict, List
 
 from osgeo import gdal
 
@@ -110,6 +110,7 @@ class ElevationLoader(DataValidator[Elevation]):
                 dstSRS=f"EPSG:{utm_epsg_code}",
                 dstNodata=NO_DATA_VALUE,
                 srcNodata=None,
+                **self._get_cells_to_keep(ds_list, utm_epsg_code),
             )
 
             # Crop the geotiff into boundary bounding box
@@ -158,6 +159,40 @@ class ElevationLoader(DataValidator[Elevation]):
 
         return elevation
 
+    @staticmethod
+    def _get_cells_to_keep(
+        ds_list: List[gdal.Dataset], utm_epsg_code: int
+    ) -> Dict[str, Any]:
+        """
+        By default, the cells are square after warping. Cells that are not
+        square are kept as they are if they don't have to be projected.
+        """
+        x_res, y_res, left, bottom, right, top = [], [], [], [], [], []
+        for ds in ds_list:
+            crs = ds.GetSpatialRef()
+            geotransform = ds.GetGeoTransform()
+            if (
+                crs is None
+                or crs.GetAuthorityCode(None) != str(utm_epsg_code)
+                or geotransform[2] != 0
+                or geotransform[4] != 0
+                or geotransform[5] >= 0
+            ):
+                return {}
+            x_res.append(geotransform[1])
+            y_res.append(-geotransform[5])
+            left.append(geotransform[0])
+            top.append(geotransform[3])
+            right.append(left[-1] + ds.RasterXSize * x_res[-1])
+            bottom.append(top[-1] - ds.RasterYSize * y_res[-1])
+        if x_res == y_res:
+            return {}
+        return {
+            "xRes": min(x_res),
+            "yRes": min(y_res),
+            "outputBounds": (min(left), min(bottom), max(right), max(top)),
+        }
+
     def validate(self, gis_data: Elevation) -> None:
         rules = ElevationRules(gis_data)
         self.errors += list(
-- 
2.43.0

