From 746dc2c83ee96847c1d57a6b021279816b0a8ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:43 +0000
Subject: [PATCH 01/41] fix: XML import no longer crashes on comments and
 processing instructions

---
 bpmn_python/bpmn_import_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index a0cd3d8..2da200e 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -32,7 +32,8 @@ class BpmnImportUtils(object):
         """
         element = parent.firstChild
         while element is not None:
-            yield element
+            if element.nodeType not in (element.COMMENT_NODE, element.PROCESSING_INSTRUCTION_NODE):
+                yield element
             element = element.nextSibling
 
     @staticmethod
-- 
2.43.0


From ef2b81c05ae564989399665f3dc6f66d43388b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:43 +0000
Subject: [PATCH 02/41] fix: event definitions are imported in a fixed order,
 not in set order

---
 bpmn_python/bpmn_diagram_import.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index d5ddcca..c2a964c 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -596,8 +596,8 @@ class BpmnDiagramGraphImport(object):
         :param element: object representing a BPMN XML 'startEvent' element.
         """
         element_id = element.getAttribute(consts.Consts.id)
-        start_event_definitions = {'messageEventDefinition', 'timerEventDefinition', 'conditionalEventDefinition',
-                                   'escalationEventDefinition', 'signalEventDefinition'}
+        start_event_definitions = ('messageEventDefinition', 'timerEventDefinition', 'conditionalEventDefinition',
+                                   'escalationEventDefinition', 'signalEventDefinition')
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
         diagram_graph.node[element_id][consts.Consts.parallel_multiple] = \
             element.getAttribute(consts.Consts.parallel_multiple) \
@@ -623,9 +623,9 @@ class BpmnDiagramGraphImport(object):
         :param element: object representing a BPMN XML 'intermediateCatchEvent' element.
         """
         element_id = element.getAttribute(consts.Consts.id)
-        intermediate_catch_event_definitions = {'messageEventDefinition', 'timerEventDefinition',
+        intermediate_catch_event_definitions = ('messageEventDefinition', 'timerEventDefinition',
                                                 'signalEventDefinition', 'conditionalEventDefinition',
-                                                'escalationEventDefinition'}
+                                                'escalationEventDefinition')
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
         diagram_graph.node[element_id][consts.Consts.parallel_multiple] = \
             element.getAttribute(consts.Consts.parallel_multiple) \
@@ -647,8 +647,8 @@ class BpmnDiagramGraphImport(object):
             imported flow node,
         :param element: object representing a BPMN XML 'endEvent' element.
         """
-        end_event_definitions = {'messageEventDefinition', 'signalEventDefinition', 'escalationEventDefinition',
-                                 'errorEventDefinition', 'compensateEventDefinition', 'terminateEventDefinition'}
+        end_event_definitions = ('messageEventDefinition', 'signalEventDefinition', 'escalationEventDefinition',
+                                 'errorEventDefinition', 'compensateEventDefinition', 'terminateEventDefinition')
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
         BpmnDiagramGraphImport.import_event_definition_elements(diagram_graph, element, end_event_definitions)
 
@@ -666,8 +666,8 @@ class BpmnDiagramGraphImport(object):
            imported flow node,
         :param element: object representing a BPMN XML 'intermediateThrowEvent' element.
         """
-        intermediate_throw_event_definitions = {'messageEventDefinition', 'signalEventDefinition',
-                                                'escalationEventDefinition', 'compensateEventDefinition'}
+        intermediate_throw_event_definitions = ('messageEventDefinition', 'signalEventDefinition',
+                                                'escalationEventDefinition', 'compensateEventDefinition')
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
         BpmnDiagramGraphImport.import_event_definition_elements(diagram_graph, element,
                                                                 intermediate_throw_event_definitions)
@@ -687,8 +687,8 @@ class BpmnDiagramGraphImport(object):
         :param element: object representing a BPMN XML 'endEvent' element.
         """
         element_id = element.getAttribute(consts.Consts.id)
-        boundary_event_definitions = {'messageEventDefinition', 'timerEventDefinition', 'signalEventDefinition',
-                                      'conditionalEventDefinition', 'escalationEventDefinition', 'errorEventDefinition'}
+        boundary_event_definitions = ('messageEventDefinition', 'timerEventDefinition', 'signalEventDefinition',
+                                      'conditionalEventDefinition', 'escalationEventDefinition', 'errorEventDefinition')
         BpmnDiagramGraphImport.import_flow_node_to_graph(diagram_graph, process_id, process_attributes, element)
 
         diagram_graph.node[element_id][consts.Consts.parallel_multiple] = \
-- 
2.43.0


From d644c319ca465e940e88c570f2ea1278a4a29208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:43 +0000
Subject: [PATCH 03/41] fix: export nested lane sets as childLaneSet so that
 they can be read back

---
 bpmn_python/bpmn_diagram_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index ad2952a..25bb8ce 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -249,7 +249,7 @@ class BpmnDiagramGraphExport(object):
         :param child_lane_set: dictionary with exported 'childLaneSet' element attributes and child elements,
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
-        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.lane_set)
+        lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From de1e099747ae96dcd29545691ffeb0905ca4cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:43 +0000
Subject: [PATCH 04/41] fix: export the ids of lane sets

---
 bpmn_python/bpmn_diagram_export.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 25bb8ce..b90ae68 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -237,6 +237,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(process, consts.Consts.lane_set)
+        if lane_set[consts.Consts.id] != "":
+            lane_set_xml.set(consts.Consts.id, lane_set[consts.Consts.id])
         for key, value in lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
@@ -250,6 +252,8 @@ class BpmnDiagramGraphExport(object):
         :param plane_element: XML object, representing 'plane' element of exported BPMN 2.0 XML.
         """
         lane_set_xml = eTree.SubElement(parent_xml_element, consts.Consts.child_lane_set)
+        if child_lane_set[consts.Consts.id] != "":
+            lane_set_xml.set(consts.Consts.id, child_lane_set[consts.Consts.id])
         for key, value in child_lane_set[consts.Consts.lanes].items():
             BpmnDiagramGraphExport.export_lane(lane_set_xml, key, value, plane_element)
 
-- 
2.43.0


From 06eb3a8f688a20bfae4bc2d3b49968dd2a191baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:43 +0000
Subject: [PATCH 05/41] fix: export the name of a process

---
 bpmn_python/bpmn_diagram_export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index b90ae68..f791fc5 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -221,6 +221,7 @@ class BpmnDiagramGraphExport(object):
         """
         process = eTree.SubElement(definitions, consts.Consts.process)
         process.set(consts.Consts.id, process_id)
+        process.set(consts.Consts.name, process_attributes_dictionary[consts.Consts.name])
         process.set(consts.Consts.is_closed, process_attributes_dictionary[consts.Consts.is_closed])
         process.set(consts.Consts.is_executable, process_attributes_dictionary[consts.Consts.is_executable])
         process.set(consts.Consts.process_type, process_attributes_dictionary[consts.Consts.process_type])
-- 
2.43.0


From 8453d5a929cfa1de64c7f4f12cb6face5a26d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:52 +0000
Subject: [PATCH 06/41] fix: a condition expression no longer overwrites the
 name of a sequence flow

---
 bpmn_python/bpmn_diagram_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index f791fc5..a7f1636 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -399,7 +399,8 @@ class BpmnDiagramGraphExport(object):
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
-            output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
+            if params[consts.Consts.name] == "":
+                output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
 
     @staticmethod
     def export_flow_di_data(params, plane):
-- 
2.43.0


From e4734b434cbadc43bc0a0dfd0f0074374d6c90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:06 +0000
Subject: [PATCH 07/41] fix: message flows and pools without a process are
 drawn once in exported files

---
 bpmn_python/bpmn_diagram_export.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index a7f1636..28ff2cc 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -450,16 +450,6 @@ class BpmnDiagramGraphExport(object):
                 message_flow.set(consts.Consts.source_ref, message_flow_attr[consts.Consts.source_ref])
                 message_flow.set(consts.Consts.target_ref, message_flow_attr[consts.Consts.target_ref])
 
-                message_flow_params = bpmn_diagram.get_flow_by_id(message_flow_id)[2]
-                output_flow = eTree.SubElement(plane, BpmnDiagramGraphExport.bpmndi_namespace + consts.Consts.bpmn_edge)
-                output_flow.set(consts.Consts.id, message_flow_id + "_gui")
-                output_flow.set(consts.Consts.bpmn_element, message_flow_id)
-                waypoints = message_flow_params[consts.Consts.waypoints]
-                for waypoint in waypoints:
-                    waypoint_element = eTree.SubElement(output_flow, "omgdi:waypoint")
-                    waypoint_element.set(consts.Consts.x, waypoint[0])
-                    waypoint_element.set(consts.Consts.y, waypoint[1])
-
             for participant_id, participant_attr in participants.items():
                 participant = eTree.SubElement(collaboration_xml, consts.Consts.participant)
                 participant.set(consts.Consts.id, participant_id)
@@ -503,7 +493,9 @@ class BpmnDiagramGraphExport(object):
         for node in nodes:
             node_id = node[0]
             params = node[1]
-            BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
+            # shapes of pools are exported together with the collaboration
+            if params[consts.Consts.type] != consts.Consts.participant:
+                BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
 
         flows = bpmn_diagram.get_flows()
         for flow in flows:
-- 
2.43.0


From b229066f130c61cffea080a3a739aba47d968648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:06 +0000
Subject: [PATCH 08/41] fix: export without DI data writes every process with
 its own nodes and flows only

---
 bpmn_python/bpmn_diagram_export.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 28ff2cc..b07d738 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -520,7 +520,6 @@ class BpmnDiagramGraphExport(object):
         :param filename: string representing output file name,
         :param bpmn_diagram: BPMNDiagramGraph class instance representing a BPMN process diagram.
         """
-        diagram_graph = bpmn_diagram.diagram_graph
         process_elements_dict = bpmn_diagram.process_elements
         definitions = BpmnDiagramGraphExport.export_definitions_element()
 
@@ -529,14 +528,14 @@ class BpmnDiagramGraphExport(object):
             process = BpmnDiagramGraphExport.export_process_element(definitions, process_id, process_element_attr)
 
             # for each node in graph add correct type of element, its attributes and BPMNShape element
-            nodes = diagram_graph.nodes(data=True)
+            nodes = bpmn_diagram.get_nodes_list_by_process_id(process_id)
             for node in nodes:
                 node_id = node[0]
                 params = node[1]
                 BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process)
 
             # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
-            flows = diagram_graph.edges(data=True)
+            flows = bpmn_diagram.get_flows_list_by_process_id(process_id)
             for flow in flows:
                 params = flow[2]
                 BpmnDiagramGraphExport.export_flow_process_data(params, process)
-- 
2.43.0


From 523d7a1eeb0b57b6bb61dc32347ffaac5b1a7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:22 +0000
Subject: [PATCH 09/41] fix: exports write into the given directory even
 without a trailing separator

---
 bpmn_python/bpmn_diagram_export.py     | 4 ++--
 bpmn_python/bpmn_process_csv_export.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index b07d738..d0ed5af 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -509,7 +509,7 @@ class BpmnDiagramGraphExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        tree.write(directory + filename, encoding='utf-8', xml_declaration=True)
+        tree.write(os.path.join(directory, filename), encoding='utf-8', xml_declaration=True)
 
     @staticmethod
     def export_xml_file_no_di(directory, filename, bpmn_diagram):
@@ -547,7 +547,7 @@ class BpmnDiagramGraphExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        tree.write(directory + filename, encoding='utf-8', xml_declaration=True)
+        tree.write(os.path.join(directory, filename), encoding='utf-8', xml_declaration=True)
 
     # Helper methods
     @staticmethod
diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 47d71f1..64b4e39 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -69,7 +69,7 @@ class BpmnDiagramGraphCsvExport(object):
         except OSError as exception:
             if exception.errno != errno.EEXIST:
                 raise
-        file_object = open(directory + filename, "w")
+        file_object = open(os.path.join(directory, filename), "w")
         file_object.write("Order,Activity,Condition,Who,Subprocess,Terminated\n")
         BpmnDiagramGraphCsvExport.write_export_node_to_file(file_object, export_elements)
         file_object.close()
-- 
2.43.0


From 728ab4836ef827e328742c85b2a02e8758325aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:02 +0000
Subject: [PATCH 10/41] fix: quote CSV cells that contain commas, quotes or
 line breaks

---
 bpmn_python/bpmn_process_csv_export.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 64b4e39..dbbc03e 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -6,6 +6,7 @@ Process Modeling" by Kluza k. and Wisniewski P.
 from __future__ import print_function
 
 import copy
+import csv
 import errno
 import os
 import string
@@ -292,8 +293,8 @@ class BpmnDiagramGraphCsvExport(object):
         :param export_elements: a dictionary object. The key is a node ID, value is a dictionary of parameters that
                will be used in exported CSV document.
         """
+        writer = csv.writer(file_object, lineterminator="\n")
         for export_element in export_elements:
             # Order,Activity,Condition,Who,Subprocess,Terminated
-            file_object.write(
-                export_element["Order"] + "," + export_element["Activity"] + "," + export_element["Condition"] + "," +
-                export_element["Who"] + "," + export_element["Subprocess"] + "," + export_element["Terminated"] + "\n")
+            writer.writerow([export_element["Order"], export_element["Activity"], export_element["Condition"],
+                             export_element["Who"], export_element["Subprocess"], export_element["Terminated"]])
-- 
2.43.0


From 89919bffca107f86a4561923893aadfbdd9719e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:02 +0000
Subject: [PATCH 11/41] fix: layouter shifts occupied rows by the grid width
 instead of an attribute name

---
 bpmn_python/bpmn_diagram_layouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index b13771b..be0932e 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -369,7 +369,7 @@ def insert_into_grid(grid, row, col, node_id):
     if occupied_cell:
         for grid_cell in grid:
             if grid_cell.row >= row:
-                grid_cell.row += consts.Consts.width
+                grid_cell.row += consts.Consts.grid_column_width
     grid.append(cell_class.GridCell(row, col, node_id))
 
 
-- 
2.43.0


From a4372b2b4431f9918a183316a0cc1cbde6b6b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:45 +0000
Subject: [PATCH 12/41] fix: layouter handles split successors that are already
 placed

---
 bpmn_python/bpmn_diagram_layouter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index be0932e..de654d0 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -300,9 +300,12 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
         for flow_id in outgoing_flows:
             flow = bpmn_graph.get_flow_by_id(flow_id)
             successors_id_list.append(flow[2][consts.Consts.target_ref])
-        num_of_successors = len(successors_id_list)
         successor_node_list = [successor_node for successor_node in nodes_with_classification
                                       if successor_node[node_param_name][0] in successors_id_list]
+        # Successors that are already placed (loops) or placed by a nested split are not placed again
+        num_of_successors = len(successor_node_list)
+        for successor_node in successor_node_list:
+            nodes_with_classification.remove(successor_node)
 
         if num_of_successors % 2 != 0:
             # if number of successors is even, put one half over the split, second half below
@@ -314,19 +317,16 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row + ((index + 1) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
 
             successor_node = successor_node_list[centre]
             (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                bpmn_graph,nodes_with_classification, current_element_row)
-            nodes_with_classification.remove(successor_node)
             for index in range(centre + 1, num_of_successors):
                 # place element below split
                 successor_node = successor_node_list[index]
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row - ((index - centre) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
         else:
             centre = (num_of_successors // 2)
             for index in range(0, centre):
@@ -335,7 +335,6 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row + (index + 1) * consts.Consts.grid_column_width)
 
-                nodes_with_classification.remove(successor_node)
 
 
             for index in range(centre, num_of_successors):
@@ -344,7 +343,6 @@ def place_element_in_grid(node_with_classification, grid, last_row, last_col, bp
                 (grid, last_row, last_col) = place_element_in_grid(successor_node, grid, last_row, last_col,
                                                                    bpmn_graph,nodes_with_classification, current_element_row - ((index - centre + 1) * consts.Consts.grid_column_width))
 
-                nodes_with_classification.remove(successor_node)
 
 
     return grid, last_row, last_col
-- 
2.43.0


From 55fae1e12425ba0e57b32be93097cb5a5fc9d523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:12 +0000
Subject: [PATCH 13/41] fix: element classes import each other through the
 package so that they can be imported

---
 bpmn_python/graph/classes/activities/activity_type.py       | 2 +-
 bpmn_python/graph/classes/activities/subprocess_type.py     | 6 +++---
 bpmn_python/graph/classes/activities/task_type.py           | 2 +-
 bpmn_python/graph/classes/events/catch_event_type.py        | 4 ++--
 bpmn_python/graph/classes/events/end_event_type.py          | 2 +-
 bpmn_python/graph/classes/events/event_type.py              | 2 +-
 .../graph/classes/events/intermediate_catch_event_type.py   | 2 +-
 .../graph/classes/events/intermediate_throw_event_type.py   | 2 +-
 bpmn_python/graph/classes/events/start_event_type.py        | 2 +-
 bpmn_python/graph/classes/events/throw_event_type.py        | 4 ++--
 bpmn_python/graph/classes/flow_element_type.py              | 2 +-
 .../graph/classes/gateways/exclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/gateway_type.py          | 2 +-
 .../graph/classes/gateways/inclusive_gateway_type.py        | 2 +-
 bpmn_python/graph/classes/gateways/parallel_gateway_type.py | 2 +-
 bpmn_python/graph/classes/lane_set_type.py                  | 4 ++--
 bpmn_python/graph/classes/lane_type.py                      | 4 ++--
 bpmn_python/graph/classes/message_flow_type.py              | 2 +-
 bpmn_python/graph/classes/participant_type.py               | 2 +-
 .../graph/classes/root_element/callable_element_type.py     | 2 +-
 .../graph/classes/root_element/event_definition_type.py     | 2 +-
 bpmn_python/graph/classes/root_element/process_type.py      | 6 +++---
 bpmn_python/graph/classes/root_element/root_element_type.py | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py             | 4 ++--
 24 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/bpmn_python/graph/classes/activities/activity_type.py b/bpmn_python/graph/classes/activities/activity_type.py
index 699a921..89b69ad 100644
--- a/bpmn_python/graph/classes/activities/activity_type.py
+++ b/bpmn_python/graph/classes/activities/activity_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tActivity of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Activity(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/activities/subprocess_type.py b/bpmn_python/graph/classes/activities/subprocess_type.py
index d527af4..de6e225 100644
--- a/bpmn_python/graph/classes/activities/subprocess_type.py
+++ b/bpmn_python/graph/classes/activities/subprocess_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tSubProcess of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class SubProcess(activity.Activity):
diff --git a/bpmn_python/graph/classes/activities/task_type.py b/bpmn_python/graph/classes/activities/task_type.py
index 56dee3d..0ab5d42 100644
--- a/bpmn_python/graph/classes/activities/task_type.py
+++ b/bpmn_python/graph/classes/activities/task_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tTask of BPMN 2.0 graph
 """
-import graph.classes.activities.activity_type as activity
+import bpmn_python.graph.classes.activities.activity_type as activity
 
 
 class Task(activity.Activity):
diff --git a/bpmn_python/graph/classes/events/catch_event_type.py b/bpmn_python/graph/classes/events/catch_event_type.py
index 46a0ebc..f993ad5 100644
--- a/bpmn_python/graph/classes/events/catch_event_type.py
+++ b/bpmn_python/graph/classes/events/catch_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class CatchEvent(event.Event):
diff --git a/bpmn_python/graph/classes/events/end_event_type.py b/bpmn_python/graph/classes/events/end_event_type.py
index 79377e3..75c81c5 100644
--- a/bpmn_python/graph/classes/events/end_event_type.py
+++ b/bpmn_python/graph/classes/events/end_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEndEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class EndEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/event_type.py b/bpmn_python/graph/classes/events/event_type.py
index 491fb19..504823c 100644
--- a/bpmn_python/graph/classes/events/event_type.py
+++ b/bpmn_python/graph/classes/events/event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEvent of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Event(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
index 5e9b711..bcaf31e 100644
--- a/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_catch_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateCatchEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class IntermediateCatchEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
index 6276dd7..130c479 100644
--- a/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
+++ b/bpmn_python/graph/classes/events/intermediate_throw_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tIntermediateThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.throw_event_type as throw_event
+import bpmn_python.graph.classes.events.throw_event_type as throw_event
 
 
 class IntermediateThrowEvent(throw_event.ThrowEvent):
diff --git a/bpmn_python/graph/classes/events/start_event_type.py b/bpmn_python/graph/classes/events/start_event_type.py
index d129876..28fb25f 100644
--- a/bpmn_python/graph/classes/events/start_event_type.py
+++ b/bpmn_python/graph/classes/events/start_event_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tStartEvent of BPMN 2.0 graph
 """
-import graph.classes.events.catch_event_type as catch_event
+import bpmn_python.graph.classes.events.catch_event_type as catch_event
 
 
 class StartEvent(catch_event.CatchEvent):
diff --git a/bpmn_python/graph/classes/events/throw_event_type.py b/bpmn_python/graph/classes/events/throw_event_type.py
index 6b3ae4b..da7d9a4 100644
--- a/bpmn_python/graph/classes/events/throw_event_type.py
+++ b/bpmn_python/graph/classes/events/throw_event_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tThrowEvent of BPMN 2.0 graph
 """
-import graph.classes.events.event_type as event
-import graph.classes.root_element.event_definition_type as event_definition
+import bpmn_python.graph.classes.events.event_type as event
+import bpmn_python.graph.classes.root_element.event_definition_type as event_definition
 
 
 class ThrowEvent(event.Event):
diff --git a/bpmn_python/graph/classes/flow_element_type.py b/bpmn_python/graph/classes/flow_element_type.py
index 6a78189..977c952 100644
--- a/bpmn_python/graph/classes/flow_element_type.py
+++ b/bpmn_python/graph/classes/flow_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tFlowElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class FlowElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
index 7258dd1..02af765 100644
--- a/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/exclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ExclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/gateway_type.py b/bpmn_python/graph/classes/gateways/gateway_type.py
index 119e636..b65aadd 100644
--- a/bpmn_python/graph/classes/gateways/gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tGateway of BPMN 2.0 graph
 """
-import graph.classes.flow_node_type as flow_node
+import bpmn_python.graph.classes.flow_node_type as flow_node
 
 
 class Gateway(flow_node.FlowNode):
diff --git a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
index 8995d42..2ca9876 100644
--- a/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/inclusive_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tInclusiveGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class InclusiveGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
index 1d9e143..d24bd6b 100644
--- a/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
+++ b/bpmn_python/graph/classes/gateways/parallel_gateway_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParallelGateway of BPMN 2.0 graph
 """
-import graph.classes.gateways.gateway_type as gateway
+import bpmn_python.graph.classes.gateways.gateway_type as gateway
 
 
 class ParallelGateway(gateway.Gateway):
diff --git a/bpmn_python/graph/classes/lane_set_type.py b/bpmn_python/graph/classes/lane_set_type.py
index b8869f9..f68c6bb 100644
--- a/bpmn_python/graph/classes/lane_set_type.py
+++ b/bpmn_python/graph/classes/lane_set_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSetLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_type as lane
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_type as lane
 
 
 class LaneSet(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/lane_type.py b/bpmn_python/graph/classes/lane_type.py
index d61e7a2..c9c432c 100644
--- a/bpmn_python/graph/classes/lane_type.py
+++ b/bpmn_python/graph/classes/lane_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tLane of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
-import graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
 
 
 class Lane(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index 50aee47..fdfe72c 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tMessageFlow of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class MessageFlow(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index a71fd7d..b87e6a0 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tParticipant of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class Participant(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/root_element/callable_element_type.py b/bpmn_python/graph/classes/root_element/callable_element_type.py
index c1f1daa..f3c0819 100644
--- a/bpmn_python/graph/classes/root_element/callable_element_type.py
+++ b/bpmn_python/graph/classes/root_element/callable_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tCallableElement of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class CallableElement(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/event_definition_type.py b/bpmn_python/graph/classes/root_element/event_definition_type.py
index ef8020d..091f66d 100644
--- a/bpmn_python/graph/classes/root_element/event_definition_type.py
+++ b/bpmn_python/graph/classes/root_element/event_definition_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tEventDefinition of BPMN 2.0 graph
 """
-import graph.classes.root_element.root_element_type as root_element
+import bpmn_python.graph.classes.root_element.root_element_type as root_element
 
 
 class EventDefinition(root_element.RootElement):
diff --git a/bpmn_python/graph/classes/root_element/process_type.py b/bpmn_python/graph/classes/root_element/process_type.py
index a169eb7..6fdf24e 100644
--- a/bpmn_python/graph/classes/root_element/process_type.py
+++ b/bpmn_python/graph/classes/root_element/process_type.py
@@ -2,9 +2,9 @@
 """
 Class used for representing tProcess of BPMN 2.0 graph
 """
-import graph.classes.flow_element_type as flow_element
-import graph.classes.lane_set_type as lane_set
-import graph.classes.root_element.callable_element_type as callable_element
+import bpmn_python.graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.lane_set_type as lane_set
+import bpmn_python.graph.classes.root_element.callable_element_type as callable_element
 
 
 class Process(callable_element.CallableElement):
diff --git a/bpmn_python/graph/classes/root_element/root_element_type.py b/bpmn_python/graph/classes/root_element/root_element_type.py
index cf730f2..f047bea 100644
--- a/bpmn_python/graph/classes/root_element/root_element_type.py
+++ b/bpmn_python/graph/classes/root_element/root_element_type.py
@@ -2,7 +2,7 @@
 """
 Class used for representing tRootElement of BPMN 2.0 graph
 """
-import graph.classes.base_element_type as base_element
+import bpmn_python.graph.classes.base_element_type as base_element
 
 
 class RootElement(base_element.BaseElement):
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 1c8fa00..653de83 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -2,8 +2,8 @@
 """
 Class used for representing tSequenceFlow of BPMN 2.0 graph
 """
-import graph.classes.condition_expression_type as condition_expression
-import graph.classes.flow_element_type as flow_element
+import bpmn_python.graph.classes.condition_expression_type as condition_expression
+import bpmn_python.graph.classes.flow_element_type as flow_element
 
 
 class SequenceFlow(flow_element.FlowElement):
-- 
2.43.0


From af6dad8aed71b4e0fa26e307441d7025e764edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:12 +0000
Subject: [PATCH 14/41] fix: element class setters accept None where it is
 documented

---
 bpmn_python/graph/classes/base_element_type.py  | 2 +-
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/participant_type.py   | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bpmn_python/graph/classes/base_element_type.py b/bpmn_python/graph/classes/base_element_type.py
index 55f7e02..e3b8e9f 100644
--- a/bpmn_python/graph/classes/base_element_type.py
+++ b/bpmn_python/graph/classes/base_element_type.py
@@ -32,7 +32,7 @@ class BaseElement(object):
         """
         if value is None:
             self.__id = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("ID must be set to a String")
         else:
             self.__id = value
diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index fdfe72c..b6f9893 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -100,7 +100,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if value is None:
             self.__message_ref = value
-        if not isinstance(value, str):
+        elif not isinstance(value, str):
             raise TypeError("MessageRef must be set to a String")
         else:
             self.__message_ref = value
diff --git a/bpmn_python/graph/classes/participant_type.py b/bpmn_python/graph/classes/participant_type.py
index b87e6a0..82e1454 100644
--- a/bpmn_python/graph/classes/participant_type.py
+++ b/bpmn_python/graph/classes/participant_type.py
@@ -55,6 +55,6 @@ class Participant(base_element.BaseElement):
         :param value - a new value of 'process_ref' field. Must be either None (process_ref is optional according to
         BPMN 2.0 XML Schema) or String.
         """
-        if not isinstance(value, str):
+        if value is not None and not isinstance(value, str):
             raise TypeError("ProcessRef must be set to a String")
         self.__process_ref = value
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 653de83..8d4ae38 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -100,7 +100,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if value is None:
             self.__condition_expression = value
-        if not isinstance(value, condition_expression.ConditionExpression):
+        elif not isinstance(value, condition_expression.ConditionExpression):
             raise TypeError("ConditionExpression must be set to an instance of class ConditionExpression")
         else:
             self.__condition_expression = value
-- 
2.43.0


From b8417684fd91a10df1f26dd38a23bfc2fdc2ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:12 +0000
Subject: [PATCH 15/41] fix: flow constructors check the type of the target
 reference

---
 bpmn_python/graph/classes/message_flow_type.py  | 2 +-
 bpmn_python/graph/classes/sequence_flow_type.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/graph/classes/message_flow_type.py b/bpmn_python/graph/classes/message_flow_type.py
index b6f9893..f4b0ebd 100644
--- a/bpmn_python/graph/classes/message_flow_type.py
+++ b/bpmn_python/graph/classes/message_flow_type.py
@@ -22,7 +22,7 @@ class MessageFlow(base_element.BaseElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(MessageFlow, self).__init__()
diff --git a/bpmn_python/graph/classes/sequence_flow_type.py b/bpmn_python/graph/classes/sequence_flow_type.py
index 8d4ae38..29349ec 100644
--- a/bpmn_python/graph/classes/sequence_flow_type.py
+++ b/bpmn_python/graph/classes/sequence_flow_type.py
@@ -23,7 +23,7 @@ class SequenceFlow(flow_element.FlowElement):
         """
         if source_ref is None or not isinstance(source_ref, str):
             raise TypeError("SourceRef is required and must be set to a String")
-        if target_ref is None or not isinstance(source_ref, str):
+        if target_ref is None or not isinstance(target_ref, str):
             raise TypeError("TargetRef is required and must be set to a String")
 
         super(SequenceFlow, self).__init__()
-- 
2.43.0


From b5906d1f9b2a311aeb69cc40f487db5e3c704f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:12 +0000
Subject: [PATCH 16/41] fix: a grid cell can be converted to a string

---
 bpmn_python/grid_cell_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/grid_cell_class.py b/bpmn_python/grid_cell_class.py
index b564e55..4c89696 100644
--- a/bpmn_python/grid_cell_class.py
+++ b/bpmn_python/grid_cell_class.py
@@ -16,4 +16,4 @@ class GridCell(object):
         self.node_id = node_id
 
     def __str__(self):
-        return repr(self.row + " " + self.col + " " + self.node_id)
\ No newline at end of file
+        return repr(str(self.row) + " " + str(self.col) + " " + self.node_id)
\ No newline at end of file
-- 
2.43.0


From dabce9509d575f9dbe863b92477e1446c8a75131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:12 +0000
Subject: [PATCH 17/41] fix: an invalid gateway direction is rejected before
 the node is added

---
 bpmn_python/bpmn_diagram_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_rep.py b/bpmn_python/bpmn_diagram_rep.py
index c2a0cfe..e7be201 100644
--- a/bpmn_python/bpmn_diagram_rep.py
+++ b/bpmn_python/bpmn_diagram_rep.py
@@ -427,10 +427,10 @@ class BpmnDiagramGraph(object):
 
         :return: a tuple, where first value is gateway ID, second a reference to created object.
         """
-        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         if not (gateway_direction in ("Unspecified", "Converging", "Diverging", "Mixed")):
             raise bpmn_exception.BpmnPythonError("Invalid value passed as gatewayDirection parameter. Value passed: "
                                                  + gateway_direction)
+        gateway_id, gateway = self.add_flow_node_to_diagram(process_id, gateway_type, gateway_name, node_id)
         self.diagram_graph.node[gateway_id][consts.Consts.gateway_direction] = gateway_direction
         return gateway_id, gateway
 
-- 
2.43.0


From a7fd3d9d1f58931fe2937edde76a6d0859cc7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:24 +0000
Subject: [PATCH 18/41] fix: get_nodes_count counts all nodes when no type is
 given

---
 bpmn_python/bpmn_diagram_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index 2d460b8..7b669cc 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -12,7 +12,7 @@ GATEWAY_TYPES = ['inclusiveGateway', 'exclusiveGateway', 'parallelGateway', 'eve
 EVENT_TYPES = ['startEvent', 'endEvent', 'intermediateCatchEvent', 'intermediateThrowEvent']
 
 
-def get_nodes_count(bpmn_graph, node_type=None):
+def get_nodes_count(bpmn_graph, node_type=""):
     """
     Gets the count of nodes of the requested type.
     If no type is provided,
-- 
2.43.0


From 8c144dddfc8ee48a21445f8e7fcabf8702c17b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:24 +0000
Subject: [PATCH 19/41] fix: metrics count typed tasks as activities and
 boundary events as events

---
 bpmn_python/bpmn_diagram_metrics.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index 7b669cc..b847666 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -9,7 +9,8 @@ from collections import Counter
 from math import sqrt
 
 GATEWAY_TYPES = ['inclusiveGateway', 'exclusiveGateway', 'parallelGateway', 'eventBasedGateway', 'complexGateway']
-EVENT_TYPES = ['startEvent', 'endEvent', 'intermediateCatchEvent', 'intermediateThrowEvent']
+EVENT_TYPES = ['startEvent', 'endEvent', 'intermediateCatchEvent', 'intermediateThrowEvent', 'boundaryEvent']
+ACTIVITY_TYPES = ['task', 'userTask', 'serviceTask', 'manualTask', 'subProcess']
 
 
 def get_nodes_count(bpmn_graph, node_type=""):
@@ -73,12 +74,8 @@ def get_activities_counts(bpmn_graph):
     :return: count of the different types of activities in the BPMNDiagramGraph instance
     """
 
-    return {
-        "task": get_nodes_count(bpmn_graph,
-                                node_type="task"),
-        "subProcess": get_nodes_count(bpmn_graph,
-                                      node_type="subProcess"),
-    }
+    return {activity_type: get_nodes_count(bpmn_graph, node_type=activity_type)
+            for activity_type in ACTIVITY_TYPES}
 
 
 def all_activities_count(bpmn_graph):
@@ -199,9 +196,7 @@ def NOA_metric(bpmn_graph):
     :param bpmn_graph: an instance of BpmnDiagramGraph representing BPMN model.
     """
 
-    activities_counts = get_activities_counts(bpmn_graph)
-
-    return activities_counts["task"] + activities_counts["subProcess"]
+    return all_activities_count(bpmn_graph)
 
 
 def NOAC_metric(bpmn_graph):
-- 
2.43.0


From 360ad01cc1555be79b9829abc57ded4d3132fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:43 +0000
Subject: [PATCH 20/41] fix: ratio metrics are zero for diagrams without nodes
 or gateways

---
 bpmn_python/bpmn_diagram_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_metrics.py b/bpmn_python/bpmn_diagram_metrics.py
index b847666..4bf50f3 100644
--- a/bpmn_python/bpmn_diagram_metrics.py
+++ b/bpmn_python/bpmn_diagram_metrics.py
@@ -268,7 +268,8 @@ def CoefficientOfNetworkComplexity_metric(bpmn_graph):
     :param bpmn_graph: an instance of BpmnDiagramGraph representing BPMN model.
     """
 
-    return float(len(bpmn_graph.get_flows())) / float(len(bpmn_graph.get_nodes()))
+    nodes_count = len(bpmn_graph.get_nodes())
+    return float(len(bpmn_graph.get_flows())) / float(nodes_count) if nodes_count else 0.0
 
 
 def AverageGatewayDegree_metric(bpmn_graph):
@@ -284,6 +285,8 @@ def AverageGatewayDegree_metric(bpmn_graph):
     all_nodes_degrees = bpmn_graph.diagram_graph.degree()
     gateways_degree_values = [all_nodes_degrees[gateway_id] for gateway_id in gateways_ids]
 
+    if not gateways_degree_values:
+        return 0.0
     return float(sum(gateways_degree_values)) / float(len(gateways_degree_values))
 
 
-- 
2.43.0


From e00c1e5fded4646ecac3ac4f8c4c27e5f41669c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:43 +0000
Subject: [PATCH 21/41] fix: CSV import keeps the names of end events

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 82e3e63..0a22ef3 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -56,7 +56,7 @@ def add_node_info_to_diagram_graph(order, node_type, activity, process_id, bpmn_
     elif node_type == consts.Consts.subprocess:
         bpmn_diagram.add_subprocess_to_diagram(process_id, subprocess_name=activity, node_id=order)
     elif node_type == consts.Consts.end_event:
-        bpmn_diagram.add_end_event_to_diagram(process_id, node_id=order)
+        bpmn_diagram.add_end_event_to_diagram(process_id, end_event_name=activity, node_id=order)
     elif node_type == consts.Consts.inclusive_gateway:
         bpmn_diagram.add_inclusive_gateway_to_diagram(process_id, node_id=order)
     elif node_type == consts.Consts.exclusive_gateway:
-- 
2.43.0


From 462c8121863eec45f0f06b4c06f370750f30ea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:43 +0000
Subject: [PATCH 22/41] fix: CSV import records the same flow name in the
 registry and in the graph

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 0a22ef3..809cc3e 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -321,7 +321,7 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
             consts.Consts.id: flow_id + "_cond",
             consts.Consts.condition_expression: condition
         }
-    sequence_flows[flow_id] = {consts.Consts.name: flow_id, consts.Consts.source_ref: from_node_id,
+    sequence_flows[flow_id] = {consts.Consts.name: "", consts.Consts.source_ref: from_node_id,
                                consts.Consts.target_ref: to_node_id}
 
 
-- 
2.43.0


From c464b07486ce72dd81ed366fb50651bde577b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:43 +0000
Subject: [PATCH 23/41] fix: PNG drawing takes the direction of a flow from the
 flow

---
 bpmn_python/bpmn_diagram_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index 89009d6..b89afc4 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -88,7 +88,7 @@ def bpmn_diagram_to_png(bpmn_diagram, file_name):
         graph.add_node(n)
 
     for edge in g.edges(data=True):
-        e = pydotplus.Edge(src=edge[0], dst=edge[1], label=edge[2].get(consts.Consts.name))
+        e = pydotplus.Edge(src=edge[2].get(consts.Consts.source_ref), dst=edge[2].get(consts.Consts.target_ref), label=edge[2].get(consts.Consts.name))
         graph.add_edge(e)
 
     graph.write(file_name + ".png", format='png')
-- 
2.43.0


From c508235ba4b7df3a6e400ba33dd057b465ed497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 24/41] fix: the drawing shows typed tasks, data objects,
 boundary events and pools

---
 bpmn_python/bpmn_diagram_visualizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_visualizer.py b/bpmn_python/bpmn_diagram_visualizer.py
index b89afc4..f6467f4 100644
--- a/bpmn_python/bpmn_diagram_visualizer.py
+++ b/bpmn_python/bpmn_diagram_visualizer.py
@@ -40,6 +40,12 @@ def visualize_diagram(bpmn_diagram):
                            nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.end_event))
     nx.draw_networkx_nodes(g, pos, node_shape='o', node_color='white',
                            nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.intermediate_throw_event))
+    nx.draw_networkx_nodes(g, pos, node_shape='o', node_color='white',
+                           nodelist=bpmn_diagram.get_nodes_id_list_by_type(consts.Consts.boundary_event))
+    for node_type in (consts.Consts.user_task, consts.Consts.service_task, consts.Consts.manual_task,
+                      consts.Consts.data_object, consts.Consts.participant):
+        nx.draw_networkx_nodes(g, pos, node_shape='s', node_color='white',
+                               nodelist=bpmn_diagram.get_nodes_id_list_by_type(node_type))
 
     node_labels = {}
     for node in g.nodes(data=True):
-- 
2.43.0


From 73016c26fcd9db8dde4e34905bbc65637eaddc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 25/41] fix: layout covers typed tasks, data objects and
 boundary events

---
 bpmn_python/bpmn_diagram_layouter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bpmn_python/bpmn_diagram_layouter.py b/bpmn_python/bpmn_diagram_layouter.py
index de654d0..c1635ed 100644
--- a/bpmn_python/bpmn_diagram_layouter.py
+++ b/bpmn_python/bpmn_diagram_layouter.py
@@ -44,6 +44,16 @@ def generate_elements_clasification(bpmn_graph):
             tmp.append(classification_split)
         nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
 
+    for other_type in (consts.Consts.user_task, consts.Consts.service_task, consts.Consts.manual_task,
+                       consts.Consts.data_object, consts.Consts.boundary_event):
+        for element in bpmn_graph.get_nodes(other_type):
+            tmp = [classification_element]
+            if len(element[1][consts.Consts.incoming_flow]) >= 2:
+                tmp.append(classification_join)
+            if len(element[1][consts.Consts.outgoing_flow]) >= 2:
+                tmp.append(classification_split)
+            nodes_classification += [{node_param_name: element, classification_param_name: tmp}]
+
     subprocess_list = bpmn_graph.get_nodes(consts.Consts.subprocess)
     for element in subprocess_list:
         tmp = [classification_element]
-- 
2.43.0


From 2fde76559ac89d6dac4d2a96690f3e3d41b862a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 26/41] fix: CSV export classifies typed tasks, data objects
 and boundary events

---
 bpmn_python/bpmn_import_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bpmn_python/bpmn_import_utils.py b/bpmn_python/bpmn_import_utils.py
index 2da200e..f283310 100644
--- a/bpmn_python/bpmn_import_utils.py
+++ b/bpmn_python/bpmn_import_utils.py
@@ -62,6 +62,12 @@ class BpmnImportUtils(object):
             classification_labels = [classification_element]
             BpmnImportUtils.split_join_classification(element, classification_labels, nodes_classification)
 
+        for other_type in (consts.Consts.user_task, consts.Consts.service_task, consts.Consts.manual_task,
+                           consts.Consts.data_object, consts.Consts.boundary_event):
+            for element in bpmn_diagram.get_nodes(other_type):
+                classification_labels = [classification_element]
+                BpmnImportUtils.split_join_classification(element, classification_labels, nodes_classification)
+
         subprocess_list = bpmn_diagram.get_nodes(consts.Consts.subprocess)
         for element in subprocess_list:
             classification_labels = [classification_element]
-- 
2.43.0


From 8f0b6c3b94a501d35a82444b89544cf8c6be793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:37 +0000
Subject: [PATCH 27/41] fix: CSV export writes a row for typed tasks

---
 bpmn_python/bpmn_process_csv_export.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index dbbc03e..7b90ae0 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -23,7 +23,7 @@ class BpmnDiagramGraphCsvExport(object):
     Class that provides implementation of exporting process to CSV functionality
     """
     gateways_list = ["exclusiveGateway", "inclusiveGateway", "parallelGateway"]
-    tasks_list = ["task", "subProcess"]
+    tasks_list = ["task", "userTask", "serviceTask", "manualTask", "subProcess"]
 
     classification_element = "Element"
     classification_start_event = "Start Event"
@@ -140,7 +140,7 @@ class BpmnDiagramGraphCsvExport(object):
             # If the node is a join, then retract the recursion back to the split.
             # In case of activity - return current node. In case of gateway - return outgoing node
             # (we are making assumption that join has only one outgoing node)
-            if node_type == consts.Consts.task or node_type == consts.Consts.subprocess:
+            if node_type in BpmnDiagramGraphCsvExport.tasks_list:
                 return node
             else:
                 outgoing_flow_id = outgoing_flows[0]
@@ -148,7 +148,7 @@ class BpmnDiagramGraphCsvExport(object):
                 outgoing_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
                 return outgoing_node
         else:
-            if node_type == consts.Consts.task:
+            if node_type in BpmnDiagramGraphCsvExport.tasks_list and node_type != consts.Consts.subprocess:
                 export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
                                         "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
             elif node_type == consts.Consts.subprocess:
-- 
2.43.0


From f6178c3ffb8c2145ee3861a41b4a6d8ab781b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:37 +0000
Subject: [PATCH 28/41] fix: export event based gateways created by
 add_gateway_to_diagram

---
 bpmn_python/bpmn_diagram_export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index d0ed5af..7e4105e 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -94,8 +94,9 @@ class BpmnDiagramGraphExport(object):
         :param output_element: object representing BPMN XML 'eventBasedGateway' element.
         """
         output_element.set(consts.Consts.gateway_direction, node_params[consts.Consts.gateway_direction])
-        output_element.set(consts.Consts.instantiate, node_params[consts.Consts.instantiate])
-        output_element.set(consts.Consts.event_gateway_type, node_params[consts.Consts.event_gateway_type])
+        output_element.set(consts.Consts.instantiate, node_params.get(consts.Consts.instantiate, "false"))
+        output_element.set(consts.Consts.event_gateway_type,
+                           node_params.get(consts.Consts.event_gateway_type, "Exclusive"))
 
     @staticmethod
     def export_inclusive_exclusive_gateway_info(node_params, output_element):
-- 
2.43.0


From 22719ec66981e00162899a9542d43c4d3b2e452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:51 +0000
Subject: [PATCH 29/41] fix: CSV export does not continue past an outer join
 from inside a nested branch

---
 bpmn_python/bpmn_process_csv_export.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 7b90ae0..10d0a46 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -138,15 +138,7 @@ class BpmnDiagramGraphCsvExport(object):
 
         if BpmnDiagramGraphCsvExport.classification_join in node_classification and not add_join:
             # If the node is a join, then retract the recursion back to the split.
-            # In case of activity - return current node. In case of gateway - return outgoing node
-            # (we are making assumption that join has only one outgoing node)
-            if node_type in BpmnDiagramGraphCsvExport.tasks_list:
-                return node
-            else:
-                outgoing_flow_id = outgoing_flows[0]
-                outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
-                outgoing_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
-                return outgoing_node
+            return node
         else:
             if node_type in BpmnDiagramGraphCsvExport.tasks_list and node_type != consts.Consts.subprocess:
                 export_elements.append({"Order": prefix + str(order), "Activity": node[1][consts.Consts.node_name],
@@ -191,9 +183,16 @@ class BpmnDiagramGraphCsvExport(object):
                         next_node = tmp_next_node
 
             if next_node is not None:
+                # An activity that joins the branches gets its own row. In case of gateway - continue with outgoing node
+                # (we are making assumption that join has only one outgoing node), which may close an outer split.
+                is_activity = next_node[1][consts.Consts.type] in BpmnDiagramGraphCsvExport.tasks_list
+                if not is_activity:
+                    outgoing_flow_id = next_node[1][consts.Consts.outgoing_flow][0]
+                    outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
+                    next_node = bpmn_graph.get_node_by_id(outgoing_flow[2][consts.Consts.target_ref])
                 return BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, next_node,
                                                              nodes_classification, order=(order + 1), prefix=prefix,
-                                                             who=who, add_join=True)
+                                                             who=who, add_join=is_activity)
 
         elif len(outgoing_flows) == 1:
             outgoing_flow_id = outgoing_flows[0]
-- 
2.43.0


From 13734ea0bcc63680761f1fed25705f9f8a50490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:55 +0000
Subject: [PATCH 30/41] fix: CSV import keeps the condition of a goto row on
 the flow that replaces it

---
 bpmn_python/bpmn_process_csv_import.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 809cc3e..9fb0f1a 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -299,7 +299,7 @@ def get_flow_id(from_node_id, to_node_id):
     return from_node_id + "__" + to_node_id
 
 
-def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flows):
+def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flows, condition=None):
     """
 
     :param from_node_id:
@@ -307,8 +307,10 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
     :param process_dict:
     :param bpmn_diagram:
     :param sequence_flows:
+    :param condition: condition of the flow, by default the one given for the target node.
     """
-    condition = get_connection_condition_if_present(to_node_id, process_dict)
+    if condition is None:
+        condition = get_connection_condition_if_present(to_node_id, process_dict)
     bpmn_diagram.diagram_graph.add_edge(from_node_id, to_node_id)
     flow_id = get_flow_id(from_node_id, to_node_id)
     bpmn_diagram.diagram_graph[from_node_id][to_node_id][consts.Consts.id] = flow_id
@@ -325,7 +327,7 @@ def add_edge(from_node_id, to_node_id, process_dict, bpmn_diagram, sequence_flow
                                consts.Consts.target_ref: to_node_id}
 
 
-def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows):
+def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows, condition=None):
     """
 
     :param from_node_id:
@@ -333,10 +335,11 @@ def add_connection(from_node_id, to_node_id, process_dict, diagram_graph, sequen
     :param process_dict:
     :param diagram_graph:
     :param sequence_flows:
+    :param condition: condition of the flow, by default the one given for the target node.
     """
     add_outgoing_flow(from_node_id, to_node_id, diagram_graph)
     add_incoming_flow(to_node_id, from_node_id, diagram_graph)
-    add_edge(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows)
+    add_edge(from_node_id, to_node_id, process_dict, diagram_graph, sequence_flows, condition)
 
 
 def get_node_conditions(split_successors, process_dict):
@@ -572,7 +575,8 @@ def remove_goto_nodes(process_dict, diagram_graph, sequence_flows):
         if csv_line_dict[consts.Consts.csv_activity].lower().startswith("goto"):
             source_node, _ = remove_node(order, process_dict, diagram_graph, sequence_flows)
             target_node = csv_line_dict[consts.Consts.csv_activity].strip().split()[1]
-            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows)
+            add_connection(source_node, target_node, process_dict, diagram_graph, sequence_flows,
+                           csv_line_dict[consts.Consts.csv_condition])
 
 
 class BpmnDiagramGraphCSVImport(object):
-- 
2.43.0


From b5db42bac8b499448b02d1172de90fe7603f853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:37 +0000
Subject: [PATCH 31/41] fix: CSV import joins the branches of a nested split at
 the row that follows it

---
 bpmn_python/bpmn_process_csv_import.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 9fb0f1a..15020e0 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -144,7 +144,7 @@ def get_possible_merge_continuation_successors(node_id_arg):
         possible_successors = []
         for result in re.finditer(regex_pa_merge_node_finder, node_id):
             num_let_pair = result.group(2)
-            prefix = result.group(1)
+            prefix = node_id[:result.start(2)]
             num_let_result = re.match(regex_pa_num_let, num_let_pair)
             num = num_let_result.group(1)
             inc_num = str(int(num) + 1)
@@ -488,8 +488,8 @@ def fill_graph_connections(process_dict, bpmn_diagram, sequence_flows):
             pass
         elif is_there_merge_continuation(node_id, nodes_ids):
             possible_merge_successors = get_possible_merge_continuation_successors(node_id)
-            merge_successor_id = get_possible_successor_present_in_node_ids_or_raise_excp(possible_merge_successors,
-                                                                                          nodes_ids)
+            # the innermost split that continues after its branches is the one that is merged here
+            merge_successor_id = [succ for succ in possible_merge_successors if succ in nodes_ids][-1]
             merge_gateway_id, just_created = add_merge_gateway_if_not_exists(merge_successor_id, bpmn_diagram)
             if just_created:
                 add_connection(merge_gateway_id, merge_successor_id, process_dict, bpmn_diagram, sequence_flows)
-- 
2.43.0


From fc15aa0ae31baa49f35243ff71d516b3cdaed11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:17 +0000
Subject: [PATCH 32/41] fix: CSV import does not take the eleventh row of a
 branch for its first

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 15020e0..1c597a1 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -19,7 +19,7 @@ regex_pa_trailing_letter = r'(.+)([a-z|A-Z])'
 regex_pa_merge_node_finder = r'(.*?)([0-9]+[a-z|A-Z])(.*?)'
 regex_pa_num_let = r'([0-9]+)([a-z,A-Z])'
 regex_prefix_split_succ = r'^'
-regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z][1]+)$'
+regex_suffix_split_succ = r'([a-z|A-Z]|[a-z|A-Z]1)$'
 
 default_process_id = 'process_1'
 default_plane_id = 'plane_1'
-- 
2.43.0


From 80a3903d69cc14deaee13e00c8d907fa36dbd1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:36 +0000
Subject: [PATCH 33/41] fix: CSV export does not take an outer join for the end
 of an inner split

---
 bpmn_python/bpmn_process_csv_export.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 10d0a46..11aa437 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -182,6 +182,10 @@ class BpmnDiagramGraphCsvExport(object):
                     if tmp_next_node is not None:
                         next_node = tmp_next_node
 
+            if next_node is not None and not BpmnDiagramGraphCsvExport.is_join_of_split(bpmn_graph, node, next_node):
+                # Other branches of an outer split lead to this join as well, so it is the outer split that goes on.
+                return next_node
+
             if next_node is not None:
                 # An activity that joins the branches gets its own row. In case of gateway - continue with outgoing node
                 # (we are making assumption that join has only one outgoing node), which may close an outer split.
@@ -204,6 +208,28 @@ class BpmnDiagramGraphCsvExport(object):
         else:
             return None
 
+    @staticmethod
+    def is_join_of_split(bpmn_graph, split_node, join_node):
+        """
+        Checks if all the flows that enter the join come from the branches of the split.
+
+        :param bpmn_graph: an instance of BpmnDiagramGraph class,
+        :param split_node: networkx.Node object of the split,
+        :param join_node: networkx.Node object of the join,
+        :return: True, if no flow enters the join from outside of the split.
+        """
+        inside = {split_node[0], join_node[0]}
+        to_visit = [split_node]
+        while to_visit:
+            for outgoing_flow_id in to_visit.pop()[1].get(consts.Consts.outgoing_flow):
+                outgoing_flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
+                target_id = outgoing_flow[2][consts.Consts.target_ref]
+                if target_id not in inside:
+                    inside.add(target_id)
+                    to_visit.append(bpmn_graph.get_node_by_id(target_id))
+        return all(bpmn_graph.get_flow_by_id(incoming_flow_id)[2][consts.Consts.source_ref] in inside
+                   for incoming_flow_id in join_node[1].get(consts.Consts.incoming_flow))
+
     @staticmethod
     def export_start_event(bpmn_graph, export_elements, node, nodes_classification, order=0, prefix="", condition="",
                            who=""):
-- 
2.43.0


From d81ca050622f42fbe2345d636b6e4875a2a81469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:24 +0000
Subject: [PATCH 34/41] fix: a pool without a process carries its name into
 drawings

---
 bpmn_python/bpmn_diagram_import.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index c2a964c..f0e39ef 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -108,6 +108,7 @@ class BpmnDiagramGraphImport(object):
             diagram_graph.add_node(participant_id)
             diagram_graph.node[participant_id][consts.Consts.type] = consts.Consts.participant
             diagram_graph.node[participant_id][consts.Consts.process] = participant_id
+            diagram_graph.node[participant_id][consts.Consts.node_name] = name
         participants_dictionary[participant_id] = {consts.Consts.name: name, consts.Consts.process_ref: process_ref}
 
     @staticmethod
-- 
2.43.0


From 988adc9ba2bdcb9ad8c8cd6a4a255c826b96afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:59 +0000
Subject: [PATCH 35/41] fix: a condition expression without an id is not
 written with an empty one

---
 bpmn_python/bpmn_diagram_export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 7e4105e..496afa5 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -397,8 +397,8 @@ class BpmnDiagramGraphExport(object):
         if consts.Consts.condition_expression in params:
             condition_expression_params = params[consts.Consts.condition_expression]
             condition_expression = eTree.SubElement(output_flow, consts.Consts.condition_expression)
-            condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
-            condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
+            if condition_expression_params[consts.Consts.id] != "":
+                condition_expression.set(consts.Consts.id, condition_expression_params[consts.Consts.id])
             condition_expression.text = condition_expression_params[consts.Consts.condition_expression]
             if params[consts.Consts.name] == "":
                 output_flow.set(consts.Consts.name, condition_expression_params[consts.Consts.condition_expression])
-- 
2.43.0


From 17780455e0c5a7b43fb06638ace31c79c8ff7190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:59 +0000
Subject: [PATCH 36/41] fix: a lane or pool shape without isHorizontal is not
 written with an empty one

---
 bpmn_python/bpmn_diagram_export.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 496afa5..80b9922 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -285,7 +285,8 @@ class BpmnDiagramGraphExport(object):
         output_element_di.set(consts.Consts.id, lane_id + "_gui")
 
         output_element_di.set(consts.Consts.bpmn_element, lane_id)
-        output_element_di.set(consts.Consts.is_horizontal, lane_attr[consts.Consts.is_horizontal])
+        if lane_attr[consts.Consts.is_horizontal] != "":
+            output_element_di.set(consts.Consts.is_horizontal, lane_attr[consts.Consts.is_horizontal])
         bounds = eTree.SubElement(output_element_di, "omgdc:Bounds")
         bounds.set(consts.Consts.width, lane_attr[consts.Consts.width])
         bounds.set(consts.Consts.height, lane_attr[consts.Consts.height])
@@ -461,7 +462,8 @@ class BpmnDiagramGraphExport(object):
                                                      consts.Consts.bpmn_shape)
                 output_element_di.set(consts.Consts.id, participant_id + "_gui")
                 output_element_di.set(consts.Consts.bpmn_element, participant_id)
-                output_element_di.set(consts.Consts.is_horizontal, participant_attr[consts.Consts.is_horizontal])
+                if participant_attr[consts.Consts.is_horizontal] != "":
+                    output_element_di.set(consts.Consts.is_horizontal, participant_attr[consts.Consts.is_horizontal])
                 bounds = eTree.SubElement(output_element_di, "omgdc:Bounds")
                 bounds.set(consts.Consts.width, participant_attr[consts.Consts.width])
                 bounds.set(consts.Consts.height, participant_attr[consts.Consts.height])
-- 
2.43.0


From 5818d07b7c958d53aed7d4c612533d58376e0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:07 +0000
Subject: [PATCH 37/41] fix: the jump row of an empty default branch is
 exported with the condition else

---
 bpmn_python/bpmn_process_csv_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_export.py b/bpmn_python/bpmn_process_csv_export.py
index 11aa437..e9f3512 100644
--- a/bpmn_python/bpmn_process_csv_export.py
+++ b/bpmn_python/bpmn_process_csv_export.py
@@ -168,7 +168,8 @@ class BpmnDiagramGraphCsvExport(object):
                 if BpmnDiagramGraphCsvExport.classification_join in nodes_classification[outgoing_node[0]]:
                     export_elements.append(
                         {"Order": next_prefix + str(1), "Activity": "goto " + prefix + str(order + 1),
-                         "Condition": condition, "Who": who, "Subprocess": "", "Terminated": ""})
+                         "Condition": "else" if outgoing_flow_id == default_flow_id else condition, "Who": who,
+                         "Subprocess": "", "Terminated": ""})
                 elif outgoing_flow_id == default_flow_id:
                     tmp_next_node = BpmnDiagramGraphCsvExport.export_node(bpmn_graph, export_elements, outgoing_node,
                                                                           nodes_classification, 1, next_prefix, "else",
-- 
2.43.0


From af116bdcb12242945a65a372acb427ede1813fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:48 +0000
Subject: [PATCH 38/41] fix: read CSV cells as text, so that numbers and words
 such as None or NA keep their text

---
 bpmn_python/bpmn_process_csv_import.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpmn_python/bpmn_process_csv_import.py b/bpmn_python/bpmn_process_csv_import.py
index 1c597a1..7fd7cfe 100644
--- a/bpmn_python/bpmn_process_csv_import.py
+++ b/bpmn_python/bpmn_process_csv_import.py
@@ -613,7 +613,7 @@ class BpmnDiagramGraphCSVImport(object):
         :param filepath:
         :return:
         """
-        process_dict = pd.read_csv(filepath, index_col=0).fillna("").to_dict('index')
+        process_dict = pd.read_csv(filepath, index_col=0, dtype=str, keep_default_na=False).fillna("").to_dict('index')
         remove_white_spaces_in_orders(process_dict)
         return process_dict
 
-- 
2.43.0


From 4c22854cc30339dbb6909e55c78f559dd82c6c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:53 +0000
Subject: [PATCH 39/41] fix: keep lane sets of sub-processes under their
 sub-process

A lane set inside a sub-process was attributed to the enclosing process
(or lost, when that process has one of its own).
---
 bpmn_python/bpmn_diagram_export.py | 20 ++++++++++++------
 bpmn_python/bpmn_diagram_import.py | 34 ++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/bpmn_python/bpmn_diagram_export.py b/bpmn_python/bpmn_diagram_export.py
index 80b9922..f7a6202 100644
--- a/bpmn_python/bpmn_diagram_export.py
+++ b/bpmn_python/bpmn_diagram_export.py
@@ -34,25 +34,30 @@ class BpmnDiagramGraphExport(object):
             output_element.set(consts.Consts.default, node_params[consts.Consts.default])
 
     @staticmethod
-    def export_subprocess_info(bpmn_diagram, subprocess_params, output_element):
+    def export_subprocess_info(bpmn_diagram, subprocess_params, output_element, plane_element=None):
         """
         Adds Subprocess node attributes to exported XML element
 
         :param bpmn_diagram: BPMNDiagramGraph class instantion representing a BPMN process diagram,
         :param subprocess_params: dictionary with given subprocess parameters,
-        :param output_element: object representing BPMN XML 'subprocess' element.
+        :param output_element: object representing BPMN XML 'subprocess' element,
+        :param plane_element: object representing XML 'plane' element, None if no Diagram Interchange data is exported.
         """
         output_element.set(consts.Consts.triggered_by_event, subprocess_params[consts.Consts.triggered_by_event])
         if consts.Consts.default in subprocess_params and subprocess_params[consts.Consts.default] is not None:
             output_element.set(consts.Consts.default, subprocess_params[consts.Consts.default])
 
+        if plane_element is not None and consts.Consts.lane_set in subprocess_params:
+            BpmnDiagramGraphExport.export_lane_set(output_element, subprocess_params[consts.Consts.lane_set],
+                                                   plane_element)
+
         # for each node in graph add correct type of element, its attributes and BPMNShape element
         subprocess_id = subprocess_params[consts.Consts.id]
         nodes = bpmn_diagram.get_nodes_list_by_process_id(subprocess_id)
         for node in nodes:
             node_id = node[0]
             params = node[1]
-            BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, output_element)
+            BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, output_element, plane_element)
 
         # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
         flows = bpmn_diagram.get_flows_list_by_process_id(subprocess_id)
@@ -314,14 +319,15 @@ class BpmnDiagramGraphExport(object):
         return diagram, plane
 
     @staticmethod
-    def export_node_data(bpmn_diagram, process_id, params, process):
+    def export_node_data(bpmn_diagram, process_id, params, process, plane_element=None):
         """
         Creates a new XML element (depends on node type) for given node parameters and adds it to 'process' element.
 
         :param bpmn_diagram: BPMNDiagramGraph class instantion representing a BPMN process diagram,
         :param process_id: string representing ID of given flow node,
         :param params: dictionary with node parameters,
-        :param process: object of Element class, representing BPMN XML 'process' element (root for nodes).
+        :param process: object of Element class, representing BPMN XML 'process' element (root for nodes),
+        :param plane_element: object representing XML 'plane' element, None if no Diagram Interchange data is exported.
         """
         node_type = params[consts.Consts.type]
         output_element = eTree.SubElement(process, node_type)
@@ -341,7 +347,7 @@ class BpmnDiagramGraphExport(object):
                 or node_type == consts.Consts.manual_task:
             BpmnDiagramGraphExport.export_task_info(params, output_element)
         elif node_type == consts.Consts.subprocess:
-            BpmnDiagramGraphExport.export_subprocess_info(bpmn_diagram, params, output_element)
+            BpmnDiagramGraphExport.export_subprocess_info(bpmn_diagram, params, output_element, plane_element)
         elif node_type == consts.Consts.data_object:
             BpmnDiagramGraphExport.export_data_object_info(bpmn_diagram, params, output_element)
         elif node_type == consts.Consts.complex_gateway:
@@ -481,7 +487,7 @@ class BpmnDiagramGraphExport(object):
             for node in nodes:
                 node_id = node[0]
                 params = node[1]
-                BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process)
+                BpmnDiagramGraphExport.export_node_data(bpmn_diagram, node_id, params, process, plane)
                 # BpmnDiagramGraphExport.export_node_di_data(node_id, params, plane)
 
             # for each edge in graph add sequence flow element, its attributes and BPMNEdge element
diff --git a/bpmn_python/bpmn_diagram_import.py b/bpmn_python/bpmn_diagram_import.py
index f0e39ef..32aa28b 100644
--- a/bpmn_python/bpmn_diagram_import.py
+++ b/bpmn_python/bpmn_diagram_import.py
@@ -156,17 +156,14 @@ class BpmnDiagramGraphImport(object):
             process_id = process_element.getAttribute(consts.Consts.id)
             process_attributes = process_elements_dict[process_id]
 
-            lane_set_list = process_element.getElementsByTagNameNS("*", consts.Consts.lane_set)
-            if lane_set_list is not None and len(lane_set_list) > 0:
-                # according to BPMN 2.0 XML Schema, there's at most one 'laneSet' element inside 'process'
-                lane_set = lane_set_list[0]
-                BpmnDiagramGraphImport.import_lane_set_element(process_attributes, lane_set, plane_element)
+            BpmnDiagramGraphImport.__import_lane_set(process_attributes, process_element, plane_element)
 
             for element in utils.BpmnImportUtils.iterate_elements(process_element):
                 if element.nodeType != element.TEXT_NODE:
                     tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                     BpmnDiagramGraphImport.__import_element_by_tag_name(diagram_graph, sequence_flows, process_id,
-                                                                        process_attributes, element, tag_name)
+                                                                        process_attributes, element, tag_name,
+                                                                        plane_element)
 
             for flow in utils.BpmnImportUtils.iterate_elements(process_element):
                 if flow.nodeType != flow.TEXT_NODE:
@@ -176,7 +173,18 @@ class BpmnDiagramGraphImport(object):
                                                                              flow)
 
     @staticmethod
-    def __import_element_by_tag_name(diagram_graph, sequence_flows, process_id, process_attributes, element, tag_name):
+    def __import_lane_set(owner_attributes, owner_element, plane_element):
+        # lane sets of nested sub-processes belong to those sub-processes
+        lane_set_list = [lane_set for lane_set
+                         in owner_element.getElementsByTagNameNS("*", consts.Consts.lane_set)
+                         if lane_set.parentNode is owner_element]
+        if len(lane_set_list) > 0:
+            # according to BPMN 2.0 XML Schema, there's at most one 'laneSet' element inside 'process'
+            BpmnDiagramGraphImport.import_lane_set_element(owner_attributes, lane_set_list[0], plane_element)
+
+    @staticmethod
+    def __import_element_by_tag_name(diagram_graph, sequence_flows, process_id, process_attributes, element, tag_name,
+                                     plane_element):
         if tag_name == consts.Consts.task \
                 or tag_name == consts.Consts.user_task \
                 or tag_name == consts.Consts.service_task \
@@ -184,7 +192,7 @@ class BpmnDiagramGraphImport(object):
             BpmnDiagramGraphImport.import_task_to_graph(diagram_graph, process_id, process_attributes, element)
         elif tag_name == consts.Consts.subprocess:
             BpmnDiagramGraphImport.import_subprocess_to_graph(diagram_graph, sequence_flows, process_id,
-                                                              process_attributes, element)
+                                                              process_attributes, element, plane_element)
         elif tag_name == consts.Consts.data_object:
             BpmnDiagramGraphImport.import_data_object_to_graph(diagram_graph, process_id, process_attributes, element)
         elif tag_name == consts.Consts.inclusive_gateway or tag_name == consts.Consts.exclusive_gateway:
@@ -394,7 +402,8 @@ class BpmnDiagramGraphImport(object):
         BpmnDiagramGraphImport.import_activity_to_graph(diagram_graph, process_id, process_attributes, task_element)
 
     @staticmethod
-    def import_subprocess_to_graph(diagram_graph, sequence_flows, process_id, process_attributes, subprocess_element):
+    def import_subprocess_to_graph(diagram_graph, sequence_flows, process_id, process_attributes, subprocess_element,
+                                   plane_element):
         """
         Adds to graph the new element that represents BPMN subprocess.
         In addition to attributes inherited from FlowNode type, SubProcess
@@ -405,7 +414,8 @@ class BpmnDiagramGraphImport(object):
         :param process_id: string object, representing an ID of process element,
         :param process_attributes: dictionary that holds attribute values of 'process' element, which is parent of
            imported flow node,
-        :param subprocess_element: object representing a BPMN XML 'subprocess' element
+        :param subprocess_element: object representing a BPMN XML 'subprocess' element,
+        :param plane_element: object representing a BPMN XML 'plane' element.
         """
         BpmnDiagramGraphImport.import_activity_to_graph(diagram_graph, process_id, process_attributes,
                                                         subprocess_element)
@@ -417,11 +427,13 @@ class BpmnDiagramGraphImport(object):
 
         subprocess_attributes = diagram_graph.node[subprocess_id]
         subprocess_attributes[consts.Consts.node_ids] = []
+        BpmnDiagramGraphImport.__import_lane_set(subprocess_attributes, subprocess_element, plane_element)
         for element in utils.BpmnImportUtils.iterate_elements(subprocess_element):
             if element.nodeType != element.TEXT_NODE:
                 tag_name = utils.BpmnImportUtils.remove_namespace_from_tag_name(element.tagName)
                 BpmnDiagramGraphImport.__import_element_by_tag_name(diagram_graph, sequence_flows, subprocess_id,
-                                                                    subprocess_attributes, element, tag_name)
+                                                                    subprocess_attributes, element, tag_name,
+                                                                    plane_element)
 
         for flow in utils.BpmnImportUtils.iterate_elements(subprocess_element):
             if flow.nodeType != flow.TEXT_NODE:
-- 
2.43.0


From 72a55a6eaa7e4cacffe02f5f9f6d63bb91480370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:58 +0000
Subject: [PATCH 40/41] fix: a flow from a node to itself does not put the node
 twice on the longest path

---
 bpmn_python/diagram_layout_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bpmn_python/diagram_layout_metrics.py b/bpmn_python/diagram_layout_metrics.py
index 0b23a0b..f5bd1f7 100644
--- a/bpmn_python/diagram_layout_metrics.py
+++ b/bpmn_python/diagram_layout_metrics.py
@@ -217,7 +217,7 @@ def find_longest_path(previous_nodes, node, bpmn_graph):
         for outgoing_flow_id in outgoing_flows_list:
             flow = bpmn_graph.get_flow_by_id(outgoing_flow_id)
             outgoing_node = bpmn_graph.get_node_by_id(flow[2][consts.Consts.target_ref])
-            if outgoing_node not in previous_nodes:
+            if outgoing_node not in tmp_previous_nodes:
                 (output_path, output_path_len) = find_longest_path(tmp_previous_nodes, outgoing_node, bpmn_graph)
                 if output_path_len > len(longest_path):
                     longest_path = output_path
@@ -278,7 +278,7 @@ def find_longest_path_tasks(path, qualified_nodes, node, bpmn_graph):
             if node[1]["type"] in node_names:
                 tmp_qualified_nodes.append(node)
 
-            if outgoing_node not in path:
+            if outgoing_node not in tmp_path:
                 (path_all_nodes, path_qualified_nodes) = find_longest_path_tasks(tmp_path, tmp_qualified_nodes,
                                                                                  outgoing_node, bpmn_graph)
                 if len(path_qualified_nodes) > len(longest_qualified_nodes):
-- 
2.43.0


From 8f2a4f415140463a2b05f0b08de36156e2f81b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:01 +0000
Subject: [PATCH 41/41] fix: longest path metrics of a diagram that has a pool
 without a process

---
 bpmn_python/diagram_layout_metrics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bpmn_python/diagram_layout_metrics.py b/bpmn_python/diagram_layout_metrics.py
index f5bd1f7..763d9b3 100644
--- a/bpmn_python/diagram_layout_metrics.py
+++ b/bpmn_python/diagram_layout_metrics.py
@@ -183,6 +183,9 @@ def compute_longest_path(bpmn_graph):
     nodes = copy.deepcopy(bpmn_graph.get_nodes())
     no_incoming_flow_nodes = []
     for node in nodes:
+        if node[1][consts.Consts.type] == consts.Consts.participant:
+            # pools without a process are not part of the flow
+            continue
         incoming_list = node[1][incoming_flows_list_param_name]
         if len(incoming_list) == 0:
             no_incoming_flow_nodes.append(node)
@@ -234,6 +237,9 @@ def compute_longest_path_tasks(bpmn_graph):
     nodes = copy.deepcopy(bpmn_graph.get_nodes())
     no_incoming_flow_nodes = []
     for node in nodes:
+        if node[1][consts.Consts.type] == consts.Consts.participant:
+            # pools without a process are not part of the flow
+            continue
         incoming_list = node[1][incoming_flows_list_param_name]
         if len(incoming_list) == 0:
             no_incoming_flow_nodes.append(node)
-- 
2.43.0

