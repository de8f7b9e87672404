From 2fffbe3a9c7b0e3bf31811a52818ba7455bca52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 01/14] fix: resolve conflicts between new surface samples
 after the parallel sizing, not inside it

Each thread read covered_sample[] and new_sphere[] of the threads before it
while those threads were still writing them, so that the spheres that were
kept depended on the schedule (or were compared with an unfinished radius).
---
 src/Meshing/MeshingVoroCrustSampler.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index eb6b72b..99e1abe 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -2670,14 +2670,6 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 #endif
 		if (!covered_sample[thread_id])
 		{
-			for (size_t jthread = 0; jthread < thread_id; jthread++)
-			{
-				if (covered_sample[jthread]) continue;
-				covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
-				if (covered_sample[thread_id]) break;
-			}
-
-			if (!covered_sample[thread_id])
 			{
 				size_t sphere_face_index = new_sphere_face[thread_id];
 
@@ -2732,6 +2724,17 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 		}
 	}
 
+	// conflicts between the new samples are resolved in thread order, once all of them are final
+	for (size_t thread_id = 0; thread_id < _num_threads; thread_id++)
+	{
+		for (size_t jthread = 0; jthread < thread_id; jthread++)
+		{
+			if (covered_sample[thread_id]) break;
+			if (covered_sample[jthread]) continue;
+			covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
+		}
+	}
+
 #if defined USE_OPEN_MP
 	end_omp_sz = omp_get_wtime();
 	_sizing_time += end_omp_sz - start_omp_sz;
-- 
2.43.0


From b21ead629bcaeb85e43761bd80d2ed10dff140ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 02/14] fix: count the valid imposed seeds after the parallel
 loop

num_valid_seeds++ was an unsynchronised update of a shared counter, which sizes
the arrays that the valid seeds are then copied to.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index ab2160c..c9b092a 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -762,7 +762,11 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 		}
 		delete[] x;
 		valid_seed[iseed] = true;
-		num_valid_seeds++;
+	}
+
+	for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
+	{
+		if (valid_seed[iseed]) num_valid_seeds++;
 	}
 
 	vcm_cout << "  * Number of imposed seeds " << num_valid_seeds << std::endl;
-- 
2.43.0


From aebf1f37ce1dc5023502540c78678522872d1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 03/14] fix: give each iteration of impose_lipschitz_continuity
 its own query point

x was one buffer shared by all the threads of the parallel loop, so that the
neighbors of a sphere could be looked up around another thread's sphere.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index c9b092a..4369f91 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -3080,7 +3080,6 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 {
 	#pragma region Impose Lipschitz Continuity:
 	
-	double* x = new double[num_dim];
 	size_t* num_neighbors = new size_t[num_spheres];
 	size_t** neighbors = new size_t*[num_spheres];
 	
@@ -3090,8 +3089,10 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 #endif
 	for (int i = 0; i < num_spheres; i++)
 	{ 
+		double* x = new double[num_dim];
 		for (size_t idim = 0; idim < num_dim; idim++) x[idim] = spheres[i * num_dim + idim];
 		get_tree_points_in_sphere(num_spheres, num_dim, spheres, tree_origin, tree_right, tree_left, x, 2.0 * spheres_sizing[i], num_neighbors[i], neighbors[i]);
+		delete[] x;
 	}
 
 	size_t num_iter(0);
@@ -3127,7 +3128,7 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 	{
 		if (num_neighbors[i] > 0) delete[] neighbors[i];
 	}
-	delete[] neighbors; delete[] num_neighbors; delete[] x;
+	delete[] neighbors; delete[] num_neighbors;
 	return 0;
 	#pragma endregion
 
-- 
2.43.0


From f12625c602c86060f27bcd1d2b2f96c1fa5cf966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:03 +0000
Subject: [PATCH 04/14] fix: do not read past the end of incomplete input rows

---
 src/Meshing/MeshingPolyMesh.cpp  |  4 ++--
 src/Meshing/MeshingSmartTree.cpp |  4 +++-
 src/Meshing/MeshingVoroCrust.cpp | 23 ++++++++++++++++-------
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 94e0272..3e5768b 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -207,7 +207,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 			copy(std::istream_iterator<std::string>(iss), std::istream_iterator<std::string>(),
 				std::back_inserter<std::vector<std::string> >(tokens));
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < 4) continue;
 
 			if (tokens[0] == "v") num_points++;
 			if (tokens[0] == "f") num_faces++;
@@ -230,7 +230,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 			copy(std::istream_iterator<std::string>(iss), std::istream_iterator<std::string>(),
 				std::back_inserter<std::vector<std::string> >(tokens));
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < 4) continue;
 
 			if (tokens[0] == "v")
 			{
diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index fbb3e5d..206466a 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -266,17 +266,19 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 				iline++;
 				continue;
 			}
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < num_dim) continue;
 
 			for (size_t i = 0; i < num_dim; i++) x[i] = _memo.string_to_double(tokens[i]);
 
 			if (num_entries >= num_dim + _num_dim)
 			{
+				if (tokens.size() < num_dim + _num_dim) continue;
 				for (size_t i = 0; i < _num_dim; i++) normal[i] = _memo.string_to_double(tokens[num_dim + i]);
 			}
 
 			if (num_entries > num_dim + _num_dim)
 			{
+				if (tokens.size() < num_dim + _num_dim + num_attrib) continue;
 				for (size_t i = 0; i < num_attrib; i++) attrib[i] = _memo.string_to_size_t(tokens[num_dim +_num_dim + i]);
 			}
 			add_tree_point(num_dim, x, normal, attrib);
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 11e4e8a..07c3072 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -88,6 +88,14 @@ int MeshingVoroCrust::execute()
 
 			if (tokens.size() == 0) continue;
 
+			if (tokens[0] == "GENERATE_VCG_FILE") geneate_vcg_file = true;
+            if (tokens[0] == "GENERATE_EXODUS_FILE") generate_exodus_file = true;
+			if (tokens[0] == "GENERATE_MONITORING_POINTS") generate_monitoring_points = true;
+			if (tokens[0] == "IMPOSE_MONITORING_POINTS")   impose_monitoring_points = true;
+			if (tokens[0] == "GENERATE_MESH_FROM_SEEDS")   generate_mesh_from_seeds = true;
+
+			if (tokens.size() < 3) continue; // the remaining keys take a value: KEY = value
+
 			if (tokens[0] == "INPUT_MESH_FILE") filenames.push_back(tokens[2]);
 			if (tokens[0] == "SIZING_FILE") sizing_file = tokens[2];
 			if (tokens[0] == "R_MIN") r_min = _memo.string_to_double(tokens[2]);
@@ -95,11 +103,6 @@ int MeshingVoroCrust::execute()
 			if (tokens[0] == "LIP_CONST") Lip_const = _memo.string_to_double(tokens[2]);
 			if (tokens[0] == "VC_ANGLE") vc_ang_tol = _memo.string_to_double(tokens[2]);
 			if (tokens[0] == "NUM_THREADS") num_threads = int(_memo.string_to_double(tokens[2]));
-			if (tokens[0] == "GENERATE_VCG_FILE") geneate_vcg_file = true;
-            if (tokens[0] == "GENERATE_EXODUS_FILE") generate_exodus_file = true;
-			if (tokens[0] == "GENERATE_MONITORING_POINTS") generate_monitoring_points = true;
-			if (tokens[0] == "IMPOSE_MONITORING_POINTS")   impose_monitoring_points = true;
-			if (tokens[0] == "GENERATE_MESH_FROM_SEEDS")   generate_mesh_from_seeds = true;
 			if (tokens[0] == "SEEDS_FILE") filenames.push_back(tokens[2]);
 		}
 	}
@@ -111,6 +114,12 @@ int MeshingVoroCrust::execute()
 		return 1;
 	}
 
+	if (filenames.size() == 0)
+	{
+		vcm_cout << "\n*** No input file is specified, good bye!" << std::endl;
+		return 1;
+	}
+
 	if (generate_mesh_from_seeds)
 	{
 		vcm_cout << "MeshingVoroCrust::Input Data:" << std::endl;
@@ -787,7 +796,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < 5) continue;
 
 			num_seeds++;
 		}
@@ -810,7 +819,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() < 5) continue;
 
 			for (size_t idim = 0; idim < 3; idim++) seeds[num_seeds * 3 + idim] = _memo.string_to_double(tokens[idim]);
 			seeds_sizing[num_seeds] = _memo.string_to_double(tokens[3]);
-- 
2.43.0


From 64cb6c6060311d3e48dcf28c3ee0cd7ab383eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 05/14] fix: report unreadable inputs and failed writes in the
 exit status

---
 src/Meshing/MeshingPolyMesh.cpp      | 10 +++--
 src/Meshing/MeshingSmartTree.cpp     |  4 +-
 src/Meshing/MeshingVoroCrust.cpp     | 65 +++++++++++++++++++---------
 src/Meshing/MeshingVoroSpokes.cpp    |  6 ++-
 src/Meshing/MeshingVoronoiMesher.cpp | 13 ++++--
 src/Meshing/vc_mesh.cxx              |  6 ++-
 6 files changed, 71 insertions(+), 33 deletions(-)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 3e5768b..0196029 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -194,6 +194,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 
 	//open file
 	std::ifstream tmpfile(filename.c_str());
+	if (!tmpfile.good()) return 1;
 
 	// count vertices and faces
 	num_points = 0; num_faces = 0;
@@ -218,6 +219,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 	faces = new size_t*[num_faces];
 
 	std::ifstream myfile(filename.c_str());
+	if (!myfile.good()) return 1;
 
 	num_points = 0; num_faces = 0;
 	if (myfile.is_open() && myfile.good())
@@ -322,7 +324,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 	}
 
 	weld_nearby_points(num_points, points, num_faces, faces, 1E-8);
-	save_mesh_obj("clean.obj", num_points, points, num_faces, faces);
+	if (save_mesh_obj("clean.obj", num_points, points, num_faces, faces) != 0) return 1;
 
 	vcm_cout << "  * Number of Input mesh points = " << num_points << std::endl;
 	vcm_cout << "  * Number of Input mesh faces = " << num_faces << std::endl;
@@ -355,7 +357,8 @@ int MeshingPolyMesh::save_mesh_obj(std::string file_name, size_t num_points, dou
 		file << std::endl;
 
 	}
-	return 0;
+	file.close();
+	return file.fail() ? 1 : 0;
 	#pragma endregion
 }
 
@@ -1872,6 +1875,7 @@ int MeshingPolyMesh::write_spheres_csv(std::string file_name, size_t num_spheres
 	{
 		file << std::setprecision(12) << spheres[i][0] << ", " << spheres[i][1] << ", " << spheres[i][2] << ", " << spheres[i][3] << std::endl;
 	}
-	return 0;
+	file.close();
+	return file.fail() ? 1 : 0;
 	#pragma endregion
 }
diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 206466a..2a81ba7 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -154,7 +154,8 @@ int MeshingSmartTree::save_tree_csv(std::string file_name, size_t num_dim)
 
 		file << std::endl;
 	}
-	return 0;
+	file.close();
+	return file.fail() ? 1 : 0;
 	#pragma endregion
 }
 
@@ -241,6 +242,7 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 
 	//open file
 	std::ifstream tmpfile(file_name.c_str());
+	if (!tmpfile.good()) return 1;
 
 	if (tmpfile.is_open() && tmpfile.good())
 	{
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 07c3072..5d2d516 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -129,7 +129,7 @@ int MeshingVoroCrust::execute()
 		if (generate_exodus_file)
 			vcm_cout << "    Generate Exodus file!" << std::endl;
 		vcm_cout << "    Number of OpenMP threads = " << num_threads << std::endl;
-		generate_mesh_from_seeds_file(filenames[0], num_threads, geneate_vcg_file, generate_exodus_file);
+		if (generate_mesh_from_seeds_file(filenames[0], num_threads, geneate_vcg_file, generate_exodus_file) != 0) return 1;
 		vcm_cout << "\n*** MeshingVoroCrust::Mission Accomplished!" << std::endl;
 		return 0;
 	}
@@ -177,7 +177,11 @@ int MeshingVoroCrust::execute()
 	if (sizing_file != "")
 	{
 		input_sizing_function = new MeshingSmartTree(3);
-		input_sizing_function->load_tree_csv(sizing_file, 4);
+		if (input_sizing_function->load_tree_csv(sizing_file, 4) != 0)
+		{
+			vcm_cout << "\n*** Failed to read sizing file " << sizing_file << ", good bye!" << std::endl;
+			return 1;
+		}
 	}
 
 	size_t num_points(0); double** points(0); size_t num_faces(0); size_t** faces(0);
@@ -188,7 +192,11 @@ int MeshingVoroCrust::execute()
 		for (size_t i = 0; i < num_input_files; i++)
 		{
 			size_t tmp_num_points; double** tmp_points; size_t tmp_num_faces; size_t** tmp_faces;
-			tmp_plc.read_input_obj_file(filenames[i].c_str(), tmp_num_points, tmp_points, tmp_num_faces, tmp_faces);
+			if (tmp_plc.read_input_obj_file(filenames[i].c_str(), tmp_num_points, tmp_points, tmp_num_faces, tmp_faces) != 0)
+			{
+				vcm_cout << "\n*** Failed to read input mesh " << filenames[i] << ", good bye!" << std::endl;
+				return 1;
+			}
 
 			for (size_t iface = 0; iface < tmp_num_faces; iface++)
 			{
@@ -215,22 +223,26 @@ int MeshingVoroCrust::execute()
 			points = combined_points; faces = combined_faces;
 		}
 		tmp_plc.weld_nearby_points(num_points, points, num_faces, faces, 1E-8);
-		tmp_plc.save_mesh_obj("model_combined.obj", num_points, points, num_faces, faces);
+		if (tmp_plc.save_mesh_obj("model_combined.obj", num_points, points, num_faces, faces) != 0) return 1;
 		#pragma endregion
 	}
 	else
 	{
 		MeshingPolyMesh tmp_plc;
-		tmp_plc.read_input_obj_file(filenames[0].c_str(), num_points, points, num_faces, faces);
+		if (tmp_plc.read_input_obj_file(filenames[0].c_str(), num_points, points, num_faces, faces) != 0)
+		{
+			vcm_cout << "\n*** Failed to read input mesh " << filenames[0] << ", good bye!" << std::endl;
+			return 1;
+		}
 	}
 
 	//clock_t start_time, end_time; double cpu_time;
 	MeshingTimer timer;
 
-	execute_vc(num_threads, num_points, points, num_faces, faces, input_sizing_function, r_min, r_max, Lip_const, vc_ang_tol, geneate_vcg_file,
+	int status = execute_vc(num_threads, num_points, points, num_faces, faces, input_sizing_function, r_min, r_max, Lip_const, vc_ang_tol, geneate_vcg_file,
 		       generate_exodus_file,generate_monitoring_points, impose_monitoring_points);
 
-	vcm_cout << "\n*** MeshingVoroCrust::Mission Accomplished in " << timer.report_timing() << " seconds! ***" << std::endl;
+	if (status == 0) vcm_cout << "\n*** MeshingVoroCrust::Mission Accomplished in " << timer.report_timing() << " seconds! ***" << std::endl;
 
 	for (size_t ipoint = 0; ipoint < num_points; ipoint++) delete[] points[ipoint];
 	delete[] points;
@@ -239,7 +251,7 @@ int MeshingVoroCrust::execute()
 	delete[] faces;
 
 
-	return 0;
+	return status;
 	#pragma endregion
 }
 
@@ -301,15 +313,16 @@ int MeshingVoroCrust::execute_vc(int num_threads, size_t num_points, double** po
 
 	size_t num_seed_points(0);
 	double* seed_points(0); size_t* seed_points_region_id(0); double* seed_points_sizing(0);
-	generate_interior_seeds(seeds, surface_spheres, edge_spheres, corner_spheres, input_sizing_function, num_threads, Lip, rmax,
+	int status = generate_interior_seeds(seeds, surface_spheres, edge_spheres, corner_spheres, input_sizing_function, num_threads, Lip, rmax,
 		                    impose_monitoring_points, generate_monitoring_points,
 		                    num_seed_points, seed_points, seed_points_region_id, seed_points_sizing);
+	if (status != 0) return status;
 
 	if (generate_vcg_file || generate_exodus_file)
 	{
-		generate_explicit_mesh(num_threads, num_seed_points, seed_points, seed_points_region_id, seed_points_sizing, num_surface_seeds, generate_vcg_file, generate_exodus_file);
+		status = generate_explicit_mesh(num_threads, num_seed_points, seed_points, seed_points_region_id, seed_points_sizing, num_surface_seeds, generate_vcg_file, generate_exodus_file);
 	}
-	return 0;
+	return status;
 	#pragma endregion
 }
 
@@ -431,7 +444,11 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 
 		timer.start();
 		
-		mesher.load_spheres_csv("monitoring_points.csv", 3, num_imposed_seeds, imposed_seeds);
+		if (mesher.load_spheres_csv("monitoring_points.csv", 3, num_imposed_seeds, imposed_seeds) != 0)
+		{
+			vcm_cout << "\n*** Failed to read monitoring_points.csv, good bye!" << std::endl;
+			return 1;
+		}
 
 		mesher.impose_interior_seeds(num_seeds, seeds, seeds_sizing, seeds_region_id,
 			                         num_surface_spheres, surface_spheres, surface_spheres_sizing,
@@ -547,7 +564,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 		}
 		
 
-		mesher.save_spheres_csv("monitoring_points_closest_seeds.csv", 3, num_imposed_seeds, imposed_seeds, 0, 0);
+		if (mesher.save_spheres_csv("monitoring_points_closest_seeds.csv", 3, num_imposed_seeds, imposed_seeds, 0, 0) != 0) return 1;
 		vcm_cout << "  * Updated monitoring points are saved in monitoring_points_closest_seeds.csv" << std::endl;
 
 		delete[] imposed_seeds;
@@ -559,7 +576,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 		vcm_cout << "  * executed in " << timer.report_timing() << " seconds!" << std::endl;
 	}
 
-	mesher.save_spheres_csv("seeds.csv", 3, num_seeds, seeds, seeds_sizing, seeds_region_id);
+	if (mesher.save_spheres_csv("seeds.csv", 3, num_seeds, seeds, seeds_sizing, seeds_region_id) != 0) return 1;
 	vcm_cout << "  * All seeds are stored in seeds.csv, saved in " << timer.report_timing() << " seconds!" << std::endl;
 
 	vcm_cout << "  * Number of added seeds " << num_seeds - num_surface_seeds << std::endl;
@@ -613,7 +630,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 			mon_pts[i * 4 + 2] = seeds[seed_index * 3 + 2];
 			mon_pts[i * 4 + 3] = seeds_sizing[seed_index];
 		}
-		mesher.save_spheres_csv("monitoring_points.csv", 3, num_monitoring_points, mon_pts, 0, 0);
+		if (mesher.save_spheres_csv("monitoring_points.csv", 3, num_monitoring_points, mon_pts, 0, 0) != 0) return 1;
 		vcm_cout << "  * Monitoring points are saved in monitoring_points.csv" << std::endl;
 
 		delete[] seed_new_index; delete[] mon_pts;
@@ -745,11 +762,12 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 	vcm_cout << "  * Number of meshed cells =  " << num_meshed_cells << std::endl;
 	vcm_cout << "  * executed in " << timer.report_timing() << " seconds!" << std::endl;
 
+	int status(0);
 	if (generate_vcg_file)
-		mesher.save_vcg_file_pflotran("mesh.vcg", num_seeds, seeds, seeds_region_id, num_vertices, vertices, num_faces, faces, cell_num_faces, cell_faces);
+		status = mesher.save_vcg_file_pflotran("mesh.vcg", num_seeds, seeds, seeds_region_id, num_vertices, vertices, num_faces, faces, cell_num_faces, cell_faces);
 
 	if (generate_exodus_file)
-		mesher.save_exodus_file("mesh.exo", num_seeds, seeds, seeds_region_id, num_vertices, vertices, num_faces, faces, cell_num_faces, cell_faces);
+		if (mesher.save_exodus_file("mesh.exo", num_seeds, seeds, seeds_region_id, num_vertices, vertices, num_faces, faces, cell_num_faces, cell_faces) != 0) status = 1;
 
 	for (size_t iface = 0; iface < num_faces; iface++) delete[] faces[iface];
 	delete[] faces; delete[] vertices; delete[] cell_num_faces;
@@ -762,7 +780,7 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 	delete[] cell_faces;
 
 	delete[] seeds; delete[] seeds_region_id; delete[] seeds_sizing;
-	return 0;
+	return status;
 	#pragma endregion
 }
 
@@ -771,9 +789,12 @@ int MeshingVoroCrust::generate_mesh_from_seeds_file(std::string file_name, int n
 {
 	size_t num_seeds;
 	double* seeds; size_t* seeds_region_id; double* seeds_sizing;
-	read_seeds_csv(file_name, num_seeds, seeds, seeds_region_id, seeds_sizing);
-	generate_explicit_mesh(num_threads, num_seeds, seeds, seeds_region_id, seeds_sizing, num_seeds, generate_vcg_file, generate_exodus_file);
-	return 0;
+	if (read_seeds_csv(file_name, num_seeds, seeds, seeds_region_id, seeds_sizing) != 0)
+	{
+		vcm_cout << "\n*** Failed to read seeds file " << file_name << ", good bye!" << std::endl;
+		return 1;
+	}
+	return generate_explicit_mesh(num_threads, num_seeds, seeds, seeds_region_id, seeds_sizing, num_seeds, generate_vcg_file, generate_exodus_file);
 }
 
 
@@ -785,6 +806,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 	MeshingTimer timer;
 
 	std::ifstream tmpfile(file_name.c_str());
+	if (!tmpfile.good()) return 1;
 	num_seeds = 0;
 	if (tmpfile.is_open() && tmpfile.good())
 	{
@@ -803,6 +825,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 	}
 
 	std::ifstream tmpfile_2(file_name.c_str());
+	if (!tmpfile_2.good()) return 1;
 
 	seeds = new double[num_seeds * 3];
 	seeds_sizing = new double[num_seeds];
diff --git a/src/Meshing/MeshingVoroSpokes.cpp b/src/Meshing/MeshingVoroSpokes.cpp
index ec0d9f4..8cd48af 100644
--- a/src/Meshing/MeshingVoroSpokes.cpp
+++ b/src/Meshing/MeshingVoroSpokes.cpp
@@ -787,7 +787,8 @@ int MeshingVoroSpokes::plot_function(std::string file_name, size_t function_inde
 		#pragma endregion
 	}
 	file << "showpage" << std::endl;
-	return 0;
+	file.close();
+	return file.fail() ? 1 : 0;
 	#pragma endregion
 }
 
@@ -1161,7 +1162,8 @@ int MeshingVoroSpokes::plot_function_slice(std::string file_name, double* po, do
 	}
 
 	file << "showpage" << std::endl;
-	return 0;
+	file.close();
+	return file.fail() ? 1 : 0;
 	#pragma endregion
 }
 
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 4369f91..eb5280b 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -2341,7 +2341,8 @@ int MeshingVoronoiMesher::save_Voronoi_tessellation(std::string file_name,
 		}
 		file << std::endl;
 	}
-	return 0;
+	file.close();
+	return file.fail() ? 1 : 0;
 	#pragma endregion
 }
 
@@ -2423,7 +2424,8 @@ int MeshingVoronoiMesher::save_Voronoi_tessellation(std::string file_name,
 		file << std::endl;
 	}
 	delete[] valid_faces;
-	return 0;
+	file.close();
+	return file.fail() ? 1 : 0;
 	#pragma endregion
 }
 
@@ -2557,7 +2559,8 @@ int MeshingVoronoiMesher::save_vcg_file_pflotran(std::string outFile, size_t num
 	vcm_cout << "    Maximum cell connections = " << max_num_connections << std::endl;
 	vcm_cout << "    Average cell connections = " << num_connections / num_meshed_cells << std::endl;
 	delete[] seed_new_index; delete[] face_area_height;
-	return 0;
+	file.close();
+	return file.fail() ? 1 : 0;
 	#pragma endregion
 }
 
@@ -2588,7 +2591,8 @@ int MeshingVoronoiMesher::save_spheres_csv(std::string file_name, size_t num_dim
 		}
 		file << std::endl;
 	}
-	return 0;
+	file.close();
+	return file.fail() ? 1 : 0;
 	#pragma endregion
 }
 
@@ -2601,6 +2605,7 @@ int MeshingVoronoiMesher::load_spheres_csv(std::string file_name, size_t num_dim
 
 	//open file
 	std::ifstream tmpfile(file_name.c_str());
+	if (!tmpfile.good()) return 1;
 
 	if (tmpfile.is_open() && tmpfile.good())
 	{
diff --git a/src/Meshing/vc_mesh.cxx b/src/Meshing/vc_mesh.cxx
index 5d2af4a..2aeb111 100644
--- a/src/Meshing/vc_mesh.cxx
+++ b/src/Meshing/vc_mesh.cxx
@@ -115,6 +115,8 @@ public:
 
 int main(int argc, char* argv[])
 {
+	int status(0);
+
 	#ifdef USE_KOKKOS
 	Kokkos::initialize(argc, argv);
 	{
@@ -128,7 +130,7 @@ int main(int argc, char* argv[])
 		if( options.get_method() == options.method_type_vc())
 		{
 			MeshingVoroCrust vc(options.get_filename());
-			vc.execute();
+			status = vc.execute();
 		}
 		//if ( options.get_method() == options.method_type_smooth() ) {
 		//	vcm_cout << "Triggered path" << std::endl;
@@ -153,6 +155,6 @@ int main(int argc, char* argv[])
 	Kokkos::finalize();
 	#endif // USE_KOKKOS
 
-	return 0;
+	return status;
 }
 
-- 
2.43.0


From c42bd5f5fd67108ff524d68cf554968740df8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 06/14] fix: range-check the numbers read from input files

---
 src/Meshing/MeshingPolyMesh.cpp  | 12 +++++++++++-
 src/Meshing/MeshingSmartTree.cpp |  1 +
 src/Meshing/MeshingVoroCrust.cpp | 10 +++++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 0196029..c6f3ee2 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -217,6 +217,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 
 	points = new double*[num_points];
 	faces = new size_t*[num_faces];
+	size_t num_file_points(num_points);
 
 	std::ifstream myfile(filename.c_str());
 	if (!myfile.good()) return 1;
@@ -251,7 +252,16 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 
 				faces[num_faces] = new size_t[4];
 				faces[num_faces][0] = 3;
-				for (size_t i = 1; i <= 3; i++) faces[num_faces][i] = size_t(_memo.string_to_double(tokens[i]) - 1);
+				for (size_t i = 1; i <= 3; i++)
+				{
+					size_t point_number = _memo.string_to_size_t(tokens[i]);
+					if (point_number < 1 || point_number > num_file_points)
+					{
+						vcm_cout << "  * Error: a face refers to a point that does not exist: " << line << std::endl;
+						return 1;
+					}
+					faces[num_faces][i] = point_number - 1;
+				}
 
 				bool redundant(false);
 				if (false)
diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 2a81ba7..099791f 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -282,6 +282,7 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 			{
 				if (tokens.size() < num_dim + _num_dim + num_attrib) continue;
 				for (size_t i = 0; i < num_attrib; i++) attrib[i] = _memo.string_to_size_t(tokens[num_dim +_num_dim + i]);
+				if (attrib[0] > num_attrib) continue; // the first attribute is the number of attributes
 			}
 			add_tree_point(num_dim, x, normal, attrib);
 			iline++;
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 5d2d516..3d019b4 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -114,6 +114,8 @@ int MeshingVoroCrust::execute()
 		return 1;
 	}
 
+	if (num_threads < 1) num_threads = 1;
+
 	if (filenames.size() == 0)
 	{
 		vcm_cout << "\n*** No input file is specified, good bye!" << std::endl;
@@ -846,7 +848,13 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 
 			for (size_t idim = 0; idim < 3; idim++) seeds[num_seeds * 3 + idim] = _memo.string_to_double(tokens[idim]);
 			seeds_sizing[num_seeds] = _memo.string_to_double(tokens[3]);
-			seeds_region_id[num_seeds] = _memo.string_to_size_t(tokens[4]);
+			size_t region_id = _memo.string_to_size_t(tokens[4]);
+			if (region_id > size_t(std::numeric_limits<int>::max()))
+			{
+				vcm_cout << "  * Error: invalid region id: " << line << std::endl;
+				return 1;
+			}
+			seeds_region_id[num_seeds] = region_id;
 			num_seeds++;
 		}
 	}
-- 
2.43.0


From cdfd2e710ee04fd083518128c52c81fbe164c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:04 +0000
Subject: [PATCH 07/14] fix: range searches prune with the radius they accept
 points up to

---
 src/Meshing/MeshingSmartTree.cpp     | 6 ++++--
 src/Meshing/MeshingVoronoiMesher.cpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 099791f..4a538e2 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -2121,7 +2121,8 @@ int MeshingSmartTree::kd_tree_get_seeds_in_sphere(double* x,
 	}
 
 	bool check_right(false), check_left(false);
-	double neighbor_min(x[d_index] - r), neighbor_max(x[d_index] + r);
+	double r_max((1 + 2.0E-6) * r); // the farthest point that is accepted
+	double neighbor_min(x[d_index] - r_max), neighbor_max(x[d_index] + r_max);
 
 	if (_tree_right[node_index] != node_index && neighbor_max >  _points[node_index][d_index]) check_right = true;
 	if (_tree_left[node_index] != node_index && neighbor_min < _points[node_index][d_index]) check_left = true;
@@ -2156,7 +2157,8 @@ int MeshingSmartTree::kd_tree_get_seeds_in_sphere(double* x,
 	}
 
 	bool check_right(false), check_left(false);
-	double neighbor_min(x[d_index] - r), neighbor_max(x[d_index] + r);
+	double r_max(sqrt(r * r + DST_TOL)); // the farthest point that is accepted
+	double neighbor_min(x[d_index] - r_max), neighbor_max(x[d_index] + r_max);
 
 	if (_tree_right[node_index] != node_index && neighbor_max >  _points[node_index][d_index]) check_right = true;
 	if (_tree_left[node_index] != node_index && neighbor_min < _points[node_index][d_index]) check_left = true;
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index eb5280b..255b426 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -3051,7 +3051,8 @@ int MeshingVoronoiMesher::kd_tree_get_seeds_in_sphere(size_t num_points, size_t
 	}
 
 	bool check_right(false), check_left(false);
-	double neighbor_min(x[d_index] - r), neighbor_max(x[d_index] + r);
+	double r_max((1 + 2.0E-6) * r); // the farthest point that is accepted
+	double neighbor_min(x[d_index] - r_max), neighbor_max(x[d_index] + r_max);
 
 	if (tree_right[node_index] != node_index && neighbor_max > points[node_index * num_dim + d_index])
 	{
-- 
2.43.0


From 8d09bbbf96735a267407cfdf423305ef1fdd32b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:26 +0000
Subject: [PATCH 08/14] fix: searching or building a tree without points no
 longer crashes

---
 src/Meshing/MeshingSmartTree.cpp     | 11 +++++++++++
 src/Meshing/MeshingVoronoiMesher.cpp |  8 ++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 4a538e2..187c797 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -161,6 +161,8 @@ int MeshingSmartTree::save_tree_csv(std::string file_name, size_t num_dim)
 
 int MeshingSmartTree::re_enumerate_points_for_better_memory_access()
 {
+	if (_num_points == 0) return 0;
+
 	size_t num_traversed(0);
 	size_t* ordered_indices = new size_t[_num_points];
 	kd_tree_get_nodes_order(0, _tree_origin, num_traversed, ordered_indices);
@@ -601,6 +603,7 @@ int MeshingSmartTree::kd_tree_build_balanced()
 {
 	#pragma region Build Balanced kd-tree:
 	//vcm_cout << "SmartkdTree::Building_Balanced_Tree:" << std::endl;
+	if (_num_points == 0) return 0;
 
 	clock_t start_time, end_time; double cpu_time;
 	start_time = clock();
@@ -638,6 +641,7 @@ int MeshingSmartTree::get_closest_tree_point(size_t tree_point_index, size_t &cl
 	#pragma region Closest Neighbor Search using tree:
 
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_seed(tree_point_index, 0, _tree_origin, closest_tree_point, closest_distance);
 
 	return 0;
@@ -660,6 +664,7 @@ int MeshingSmartTree::get_closest_tree_point(double* x, size_t num_exculded_tree
 	#pragma region Closest Neighbor Search using a tree:
 
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_seed(x, 0, _tree_origin, num_exculded_tree_points, exculded_tree_points, closest_tree_point, closest_distance);
 	return 0;
 
@@ -670,6 +675,7 @@ int MeshingSmartTree::get_closest_tree_point(double* x, size_t num_exculded_tree
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double feature_TOL, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, feature_TOL, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -678,6 +684,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double featur
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double* x_normal, double smoothness_threshold, size_t& closest_tree_point, double& closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, x_normal, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -687,6 +694,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double* x_nor
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, size_t num_normals, double** normals, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, num_normals, normals, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -696,6 +704,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, size_t num_no
 int MeshingSmartTree::get_closest_non_smooth_tree_edge_point(double* x, double feature_TOL, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_edge_seed(x, feature_TOL, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -704,6 +713,7 @@ int MeshingSmartTree::get_tree_points_in_sphere(double* x, double r, size_t &num
 {
 	#pragma region tree neighbor search:
 	num_points_in_sphere = 0;
+	if (_num_points == 0) return 1;
 	kd_tree_get_seeds_in_sphere(x, r, 0, _tree_origin, num_points_in_sphere, points_in_sphere, capacity);
 	return 0;
 	#pragma endregion
@@ -1051,6 +1061,7 @@ int MeshingSmartTree::trim_spoke(double* cell_seed, size_t num_involved_seeds, s
 	}
 	origin_dst = sqrt(origin_dst);
 
+	if (_num_points == 0) return 0; // nothing trims the spoke
 	kd_tree_trim_spoke(cell_seed, num_involved_seeds, involved_seeds, spoke_origin, spoke_dir, origin_dst, 0, _tree_origin, spoke_length, neighbor_seed);
 
 	if (num_involved_seeds == 0) return 0;
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 255b426..4f88538 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -2648,6 +2648,9 @@ int MeshingVoronoiMesher::build_balanced_kd_tree(size_t num_points, size_t num_d
 {
 	#pragma region Build Balanced kd-tree:
 	
+	tree_origin = SIZE_MAX;
+	if (num_points == 0) return 0;
+
 	size_t* tree_nodes_sorted = new size_t[num_points];
 	for (size_t i = 0; i < num_points; i++) tree_nodes_sorted[i] = i;
 
@@ -2655,7 +2658,6 @@ int MeshingVoronoiMesher::build_balanced_kd_tree(size_t num_points, size_t num_d
 	{
 		tree_left[iseed] = iseed; tree_right[iseed] = iseed;
 	}
-	tree_origin = SIZE_MAX;
 
 	size_t tree_height(0);
 
@@ -2678,6 +2680,7 @@ int MeshingVoronoiMesher::re_enumerate_points_for_better_memory_access(size_t nu
 	                                                            double* points_sorted, size_t* point_old_index, size_t* point_new_index)
 {
 	#pragma region Re enumerate Points for better memory access:
+	if (num_points == 0) return 0;
 	size_t num_traversed(0);
 	kd_tree_get_nodes_order(tree_right,tree_left, 0, tree_origin, num_traversed, point_old_index);
 
@@ -2756,7 +2759,8 @@ int MeshingVoronoiMesher::get_tree_points_in_sphere(size_t num_points, size_t nu
 	                                         double* x, double r, size_t& num_points_in_sphere, size_t*& points_in_sphere)
 {
 	#pragma region tree sphere neighbor search:
-	num_points_in_sphere = 0;
+	num_points_in_sphere = 0; points_in_sphere = 0;
+	if (num_points == 0) return 0;
 	size_t capacity = 10;
 	points_in_sphere = new size_t[capacity];
 	kd_tree_get_seeds_in_sphere(num_points, num_dim, points, tree_origin, tree_right, tree_left, 
-- 
2.43.0


From 865b2c5f1718d9e19e1bdce4cdd56dfb494a0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 09/14] fix: do not use values that were never assigned

---
 src/Meshing/MeshingOptionParser.h       | 2 +-
 src/Meshing/MeshingPolyMesh.cpp         | 4 ++--
 src/Meshing/MeshingSmartTree.cpp        | 3 ++-
 src/Meshing/MeshingSmartTree.h          | 2 +-
 src/Meshing/MeshingVoroCrustSampler.cpp | 2 +-
 src/Meshing/MeshingVoroCrustSampler.h   | 4 ++--
 6 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Meshing/MeshingOptionParser.h b/src/Meshing/MeshingOptionParser.h
index 3ba7ffa..8cc41a7 100644
--- a/src/Meshing/MeshingOptionParser.h
+++ b/src/Meshing/MeshingOptionParser.h
@@ -146,7 +146,7 @@ class MeshingOptionParser
 	std::string appname;
 	std::vector<std::string> argvec;
 
-	int method;
+	int method = -1;
 	std::string filename;
 
 };    // class MeshingOptionParser
diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index c6f3ee2..394ac96 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -551,7 +551,7 @@ bool MeshingPolyMesh::generate_surface_mesh(MeshingSmartTree* surface_spheres, M
 		surface_spheres->get_tree_point(isphere, 4, sphere_i);
 
 		size_t sphere_i_face;
-		surface_spheres->get_tree_point_attrib(isphere, 0, sphere_i_face);
+		if (!surface_spheres->get_tree_point_attrib(isphere, 0, sphere_i_face)) continue; // no face, no seeds
 
 		size_t num_near_by_spheres(0); size_t* near_by_spheres(0);
 		if (true)
@@ -1841,7 +1841,7 @@ int MeshingPolyMesh::adjust_cad_orientation()
 		xcorner[idim] = _xmin[idim] - (_xmax[idim] - _xmin[idim]);
 	}
 
-	double DMIN(DBL_MAX); size_t min_cad_point;
+	double DMIN(DBL_MAX); size_t min_cad_point(0);
 	for (size_t ipoint = 0; ipoint < _num_points; ipoint++)
 	{
 		double h = _geom.distance(3, _points[ipoint], xcorner);
diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 187c797..1903e9c 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -517,7 +517,7 @@ int MeshingSmartTree::get_tree_point(size_t point_index, size_t num_dim, double*
 bool MeshingSmartTree::get_tree_point_attrib(size_t point_index, size_t attrib_index, size_t &point_attrib)
 {
 	if (_points_attrib[point_index] == 0) return false;
-	if (attrib_index >= _points_attrib[point_index][0]) return false;
+	if (1 + attrib_index >= _points_attrib[point_index][0]) return false;
 	point_attrib = _points_attrib[point_index][1 + attrib_index];
 	return true;
 }
@@ -1802,6 +1802,7 @@ int MeshingSmartTree::get_3d_Voronoi_face(size_t iseed, size_t jseed, double* xf
 				// verify that this is indeed a Voronoi Vertex
 				double spoke_length(DBL_MAX);
 				trim_spoke(_points[iseed], 4, seeds, xface, spoke_dir, spoke_length, joint_neighbor_seed);
+				if (spoke_length == DBL_MAX) continue; // no trimming happened, there is no neighbor to look at
 
 				if (true)
 				{
diff --git a/src/Meshing/MeshingSmartTree.h b/src/Meshing/MeshingSmartTree.h
index 236ca87..065022f 100644
--- a/src/Meshing/MeshingSmartTree.h
+++ b/src/Meshing/MeshingSmartTree.h
@@ -295,7 +295,7 @@ private:
 
 	size_t**          _points_attrib;              // a list of integers asscoaited with each point
 
-	size_t            _graph_cap;           // size of graph list
+	size_t            _graph_cap = 0;           // size of graph list
 	size_t**          _graph;               // a list of integers asscoaited with each point
 
 	size_t            _tree_origin;                // index of tree root
diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index 99e1abe..6fdd294 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -3153,7 +3153,7 @@ int MeshingVoroCrustSampler::generate_surface_seeds(size_t num_points, double**
 		surface_spheres->get_tree_point(isphere, 4, sphere_i);
 
 		size_t sphere_i_face;
-		surface_spheres->get_tree_point_attrib(isphere, 0, sphere_i_face);
+		if (!surface_spheres->get_tree_point_attrib(isphere, 0, sphere_i_face)) continue; // no face, no seeds
 
 		size_t num_near_by_spheres(0); size_t* near_by_spheres(0);
 		if (true)
diff --git a/src/Meshing/MeshingVoroCrustSampler.h b/src/Meshing/MeshingVoroCrustSampler.h
index 8324b00..d32c4b8 100644
--- a/src/Meshing/MeshingVoroCrustSampler.h
+++ b/src/Meshing/MeshingVoroCrustSampler.h
@@ -175,11 +175,11 @@ private:
 	double     _r_min_edges;
 	double     _r_min_surface;
 
-	size_t     _num_faces;
+	size_t     _num_faces = 0;
 	double**   _face_normal;
 
 
-	size_t	   _active_pool_ref_level;
+	size_t	   _active_pool_ref_level = 0;
 	size_t     _active_pool_size;
 	size_t*    _active_pool_parent_face;
 	bool**     _active_pool_children;
-- 
2.43.0


From 1ada1ffadd3a48231185bd13d562cd5ce92c3c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 10/14] fix: size the corner-sphere and sizing-point tree
 arrays by their own counts

They were allocated with num_surface_spheres entries but filled for
num_corner_spheres and num_sizing_points points: more sizing points than
surface spheres wrote past the end of the arrays.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 4f88538..d955773 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -139,8 +139,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -161,8 +161,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -537,8 +537,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -559,8 +559,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -930,8 +930,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -952,8 +952,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
-- 
2.43.0


From a1b4b744742703018ac8b7f3019e6add3d11c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 11/14] fix: MeshingSmartTree::clear_memory leaves no released
 random samplers behind

---
 src/Meshing/MeshingSmartTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 1903e9c..1a0a814 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -593,6 +593,7 @@ void MeshingSmartTree::clear_memory()
 	{
 		delete _rsamplers[thread_id];
 	}
+	_rsamplers.clear();
 
 	_tree_max_height = 0;
 	_num_points = 0; _capacity = 0;
-- 
2.43.0


From a6e5a3d2f2bc6e4508e98e6da65222b5b9d227a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 12/14] fix: get_3d_Voronoi_face leaves no released face
 corners behind

---
 src/Meshing/MeshingSmartTree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 1a0a814..6637000 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -1854,6 +1854,7 @@ int MeshingSmartTree::get_3d_Voronoi_face(size_t iseed, size_t jseed, double* xf
 					}
 					for (size_t j = 0; j <= i; j++) delete[] face_corners[j];
 					delete[] face_corners;
+					face_corners = 0; num_face_corners = 0;
 					break;
 					#pragma endregion
 				}
@@ -1863,12 +1864,12 @@ int MeshingSmartTree::get_3d_Voronoi_face(size_t iseed, size_t jseed, double* xf
 					vcm_cout << "Warning in Voronoi Face Construction, iseed = " << iseed << ", jseed = " << jseed << "!!!!!" << std::endl;
 					for (size_t j = 0; j <= i; j++) delete[] face_corners[j];
 					delete[] face_corners;
+					face_corners = 0; num_face_corners = 0;
 					delete[] theta; delete[] theta_x; delete[] theta_y;
 					for (size_t i = 0; i < 3; i++) delete[] e_basis[i];
 					delete[] e_basis; delete[] seeds; delete[] xedge;
 					delete[] dart; delete[] spoke_dir; delete[] joint_neighbors;
 
-					num_face_corners = 0;
 					face_area = 0.0;
 
 					return 1;
-- 
2.43.0


From 501913373f67c69e73c7f76c98fa142e97c0ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 13/14] fix: compare each front seed with the one before it as
 well

---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index d955773..571b816 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1043,7 +1043,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 			size_t si_index = front_indices[i];
 
 			bool good_seed(true);
-			for (size_t j = 0; j < i - 1; j++)
+			for (size_t j = 0; j < i; j++)
 			{
 				if (is_active_seed[j])
 				{
-- 
2.43.0


From 36c013f1983b5f6196c936a1960afe086db08f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 14/14] fix: impose_consistent_orientation marks the first face
 like the others

---
 src/Meshing/MeshingPolyMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 394ac96..4666e9a 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -1292,7 +1292,7 @@ int MeshingPolyMesh::impose_consistent_orientation()
 	#pragma region Consistent Orientation:
 
 	bool* fixed = new bool[_num_faces];
-	for (size_t iface = 1; iface < _num_faces; iface++) fixed[iface] = false;
+	for (size_t iface = 0; iface < _num_faces; iface++) fixed[iface] = false;
 
 	while (true)
 	{
-- 
2.43.0

