{{"_ZN15MeshingPolyMesh13point_coveredEPdP16MeshingSmartTreeddmmmRmS3_RPm", 3}, "LIP_CONST"},
{{"_ZN16MeshingSmartTree33get_closest_non_smooth_tree_pointEPdddRmRd", 2}, "R_MIN"},
{{"_ZN16MeshingSmartTree33get_closest_non_smooth_tree_pointEPdddRmRd", 3}, "cos VC_ANGLE"},
{{"_ZN16MeshingSmartTree35kd_tree_get_closest_non_smooth_seedEPdddmmRmRd", 2}, "R_MIN"},
{{"_ZN16MeshingSmartTree35kd_tree_get_closest_non_smooth_seedEPdddmmRmRd", 3}, "cos VC_ANGLE"},
{{"_ZN16MeshingSmartTree33get_closest_non_smooth_tree_pointEPdS0_dRmRd", 3}, "cos VC_ANGLE"},
{{"_ZN16MeshingSmartTree35kd_tree_get_closest_non_smooth_seedEPdS0_dmmRmRd", 3}, "cos VC_ANGLE"},
{{"_ZN16MeshingSmartTree33get_closest_non_smooth_tree_pointEPdmPS0_dRmRd", 4}, "cos VC_ANGLE"},
{{"_ZN16MeshingSmartTree35kd_tree_get_closest_non_smooth_seedEPdmPS0_dmmRmRd", 4}, "cos VC_ANGLE"},
{{"_ZN16MeshingSmartTree38get_closest_non_smooth_tree_edge_pointEPdddRmRd", 2}, "R_MIN"},
{{"_ZN16MeshingSmartTree38get_closest_non_smooth_tree_edge_pointEPdddRmRd", 3}, "cos VC_ANGLE"},
{{"_ZN16MeshingSmartTree40kd_tree_get_closest_non_smooth_edge_seedEPdddmmRmRd", 2}, "R_MIN"},
{{"_ZN16MeshingSmartTree40kd_tree_get_closest_non_smooth_edge_seedEPdddmmRmRd", 3}, "cos VC_ANGLE"},
{{"_ZN21MeshingSpheresMethods13point_coveredEPdP16MeshingSmartTreedd", 3}, "LIP_CONST"},
{{"_ZN21MeshingSpheresMethods12edge_coveredEPPdP16MeshingSmartTreedd", 3}, "LIP_CONST"},
{{"_ZN21MeshingSpheresMethods12face_coveredEPPdP16MeshingSmartTreedd", 3}, "LIP_CONST"},
{{"_ZN21MeshingSpheresMethods33impose_lipschitz_continuity_bruteEP16MeshingSmartTreedRb", 2}, "LIP_CONST"},
{{"_ZN21MeshingSpheresMethods27impose_lipschitz_continuityEP16MeshingSmartTreedRb", 2}, "LIP_CONST"},
{{"_ZN21MeshingSpheresMethods23get_overlapping_spheresEPdP16MeshingSmartTreedRmRPm", 3}, "LIP_CONST"},
{{"_ZN16MeshingVoroCrust29generate_mesh_from_seeds_fileENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEibb", 2}, "NUM_THREADS"},
{{"_ZN16MeshingVoroCrust29generate_mesh_from_seeds_fileENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEibb", 3}, "GENERATE_VCG_FILE"},
{{"_ZN16MeshingVoroCrust29generate_mesh_from_seeds_fileENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEibb", 4}, "GENERATE_EXODUS_FILE"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 1}, "NUM_THREADS"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 6}, "SIZING_FILE"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 7}, "R_MIN"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 8}, "R_MAX"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 9}, "LIP_CONST"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 10}, "VC_ANGLE"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 11}, "GENERATE_VCG_FILE"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 12}, "GENERATE_EXODUS_FILE"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 13}, "GENERATE_MONITORING_POINTS"},
{{"_ZN16MeshingVoroCrust10execute_vcEimPPdmPPmP16MeshingSmartTreeddddbbbb", 14}, "IMPOSE_MONITORING_POINTS"},
{{"_ZN23MeshingVoroCrustSampler25set_input_sizing_functionEP16MeshingSmartTree", 1}, "SIZING_FILE"},
{{"_ZN16MeshingVoroCrust23generate_interior_seedsEP16MeshingSmartTreeS1_S1_S1_S1_iddbbRmRPdRPmS4_", 5}, "SIZING_FILE"},
{{"_ZN16MeshingVoroCrust23generate_interior_seedsEP16MeshingSmartTreeS1_S1_S1_S1_iddbbRmRPdRPmS4_", 6}, "NUM_THREADS"},
{{"_ZN16MeshingVoroCrust23generate_interior_seedsEP16MeshingSmartTreeS1_S1_S1_S1_iddbbRmRPdRPmS4_", 7}, "LIP_CONST"},
{{"_ZN16MeshingVoroCrust23generate_interior_seedsEP16MeshingSmartTreeS1_S1_S1_S1_iddbbRmRPdRPmS4_", 8}, "R_MAX"},
{{"_ZN16MeshingVoroCrust23generate_interior_seedsEP16MeshingSmartTreeS1_S1_S1_S1_iddbbRmRPdRPmS4_", 9}, "IMPOSE_MONITORING_POINTS"},
{{"_ZN16MeshingVoroCrust23generate_interior_seedsEP16MeshingSmartTreeS1_S1_S1_S1_iddbbRmRPdRPmS4_", 10}, "GENERATE_MONITORING_POINTS"},
{{"_ZN16MeshingVoroCrust22generate_explicit_meshEimPdPmS0_mbb", 1}, "NUM_THREADS"},
{{"_ZN16MeshingVoroCrust22generate_explicit_meshEimPdPmS0_mbb", 7}, "GENERATE_VCG_FILE"},
{{"_ZN16MeshingVoroCrust22generate_explicit_meshEimPdPmS0_mbb", 8}, "GENERATE_EXODUS_FILE"},
{{"_ZN23MeshingVoroCrustSamplerC2Em", 1}, "NUM_THREADS"},
{{"_ZN23MeshingVoroCrustSampler43detect_features_generate_point_clouds_cleanEmPPdmPPmdP16MeshingSmartTreeS5_RmRS3_S6_RS2_", 5}, "cos VC_ANGLE"},
{{"_ZN23MeshingVoroCrustSampler37detect_features_generate_point_cloudsEmPPdmPPmddP16MeshingSmartTreeS5_RmRS3_S6_RS2_", 5}, "cos VC_ANGLE"},
{{"_ZN23MeshingVoroCrustSampler37detect_features_generate_point_cloudsEmPPdmPPmddP16MeshingSmartTreeS5_RmRS3_S6_RS2_", 6}, "R_MIN"},
{{"_ZN23MeshingVoroCrustSampler23generate_corner_spheresEmPPdmPmP16MeshingSmartTreeS4_dS4_ddd", 7}, "R_MIN"},
{{"_ZN23MeshingVoroCrustSampler23generate_corner_spheresEmPPdmPmP16MeshingSmartTreeS4_dS4_ddd", 9}, "cos VC_ANGLE"},
{{"_ZN23MeshingVoroCrustSampler23generate_corner_spheresEmPPdmPmP16MeshingSmartTreeS4_dS4_ddd", 10}, "R_MAX"},
{{"_ZN23MeshingVoroCrustSampler23generate_corner_spheresEmPPdmPmP16MeshingSmartTreeS4_dS4_ddd", 11}, "LIP_CONST"},
{{"_ZN23MeshingVoroCrustSampler21generate_edge_spheresEmPPdmPPmP16MeshingSmartTreeS5_dS5_S5_dddd", 7}, "R_MIN"},
{{"_ZN23MeshingVoroCrustSampler21generate_edge_spheresEmPPdmPPmP16MeshingSmartTreeS5_dS5_S5_dddd", 10}, "cos VC_ANGLE"},
{{"_ZN23MeshingVoroCrustSampler21generate_edge_spheresEmPPdmPPmP16MeshingSmartTreeS5_dS5_S5_dddd", 11}, "R_MAX"},
{{"_ZN23MeshingVoroCrustSampler21generate_edge_spheresEmPPdmPPmP16MeshingSmartTreeS5_dS5_S5_dddd", 12}, "LIP_CONST"},
{{"_ZN23MeshingVoroCrustSampler24refine_active_pool_edgesEmPPdmPPmP16MeshingSmartTreeS5_dd", 7}, "LIP_CONST"},
{{"_ZN23MeshingVoroCrustSampler24generate_surface_spheresEmPPdmPPmP16MeshingSmartTreeS5_dRS5_S5_S5_S6_S6_dddd", 7}, "R_MIN"},
{{"_ZN23MeshingVoroCrustSampler24generate_surface_spheresEmPPdmPPmP16MeshingSmartTreeS5_dRS5_S5_S5_S6_S6_dddd", 13}, "cos VC_ANGLE"},
{{"_ZN23MeshingVoroCrustSampler24generate_surface_spheresEmPPdmPPmP16MeshingSmartTreeS5_dRS5_S5_S5_S6_S6_dddd", 14}, "R_MAX"},
{{"_ZN23MeshingVoroCrustSampler24generate_surface_spheresEmPPdmPPmP16MeshingSmartTreeS5_dRS5_S5_S5_S6_S6_dddd", 15}, "LIP_CONST"},
{{"_ZN23MeshingVoroCrustSampler18sample_active_poolEmmPPdmPPmP16MeshingSmartTreeS5_dS5_S5_S5_ddddS1_S2_Pb", 8}, "R_MIN"},
{{"_ZN23MeshingVoroCrustSampler18sample_active_poolEmmPPdmPPmP16MeshingSmartTreeS5_dS5_S5_S5_ddddS1_S2_Pb", 12}, "cos VC_ANGLE"},
{{"_ZN23MeshingVoroCrustSampler18sample_active_poolEmmPPdmPPmP16MeshingSmartTreeS5_dS5_S5_S5_ddddS1_S2_Pb", 13}, "R_MAX"},
{{"_ZN23MeshingVoroCrustSampler18sample_active_poolEmmPPdmPPmP16MeshingSmartTreeS5_dS5_S5_S5_ddddS1_S2_Pb", 14}, "LIP_CONST"},
{{"_ZN23MeshingVoroCrustSampler18refine_active_poolEmPPdmPPmP16MeshingSmartTreeS5_S5_dd", 8}, "LIP_CONST"},
{{"_ZN23MeshingVoroCrustSampler22generate_surface_seedsEmPPdmPPmP16MeshingSmartTreeS5_S5_dRbS5_S5_", 8}, "LIP_CONST"},
{{"_ZN20MeshingVoronoiMesher38ensure_sharp_edge_spheres_are_DelaunayERmRPdS2_RPmmS1_S1_mS1_S1_mS1_S1_mS1_S1_idd", 17}, "NUM_THREADS"},
{{"_ZN20MeshingVoronoiMesher38ensure_sharp_edge_spheres_are_DelaunayERmRPdS2_RPmmS1_S1_mS1_S1_mS1_S1_mS1_S1_idd", 18}, "LIP_CONST"},
{{"_ZN20MeshingVoronoiMesher38ensure_sharp_edge_spheres_are_DelaunayERmRPdS2_RPmmS1_S1_mS1_S1_mS1_S1_mS1_S1_idd", 19}, "R_MAX"},
{{"_ZN20MeshingVoronoiMesher27impose_lipschitz_continuityEmmPdS0_idmPmS1_", 5}, "NUM_THREADS"},
{{"_ZN20MeshingVoronoiMesher27impose_lipschitz_continuityEmmPdS0_idmPmS1_", 6}, "LIP_CONST"},
{{"_ZN20MeshingVoronoiMesher21impose_interior_seedsERmRPdS2_RPmmS1_S1_mS1_S1_mS1_S1_mS1_S1_mS1_idd", 19}, "NUM_THREADS"},
{{"_ZN20MeshingVoronoiMesher21impose_interior_seedsERmRPdS2_RPmmS1_S1_mS1_S1_mS1_S1_mS1_S1_mS1_idd", 20}, "LIP_CONST"},
{{"_ZN20MeshingVoronoiMesher21impose_interior_seedsERmRPdS2_RPmmS1_S1_mS1_S1_mS1_S1_mS1_S1_mS1_idd", 21}, "R_MAX"},
{{"_ZN20MeshingVoronoiMesher23generate_interior_seedsERmRPdS2_RPmmS1_S1_mS1_S1_mS1_S1_mS1_S1_idd", 17}, "NUM_THREADS"},
{{"_ZN20MeshingVoronoiMesher23generate_interior_seedsERmRPdS2_RPmmS1_S1_mS1_S1_mS1_S1_mS1_S1_idd", 18}, "LIP_CONST"},
{{"_ZN20MeshingVoronoiMesher23generate_interior_seedsERmRPdS2_RPmmS1_S1_mS1_S1_mS1_S1_mS1_S1_idd", 19}, "R_MAX"},
{{"_ZN20MeshingVoronoiMesher24generate_3d_voronoi_meshEimPdPmS0_RmRS0_S2_RPS1_", 1}, "NUM_THREADS"},
