// the fields of the OpenMTP binary header, in the order of OpenMtpFile.tla
SCALAR(year)
SCALAR(jday)
SCALAR(slot)
SCALAR(dtype)
SCALAR(date)
SCALAR(time)
SCALAR(proc)
SCALAR(chan)
SCALAR(header_2_record_size)
SCALAR(image_line_record_size)
SCALAR(offset_first_pixel_in_line)
SCALAR(deformation_model)
SCALAR(resampling_method)
SCALAR(origin)
SCALAR(first_line)
SCALAR(first_pixel)
SCALAR(nlines)
SCALAR(npixels)
SCALAR(image_quality)
SCALAR(urect_nominal_end_time)
SCALAR(urect_processing_performed)
SCALAR(urect_special_output)
SCALAR(urect_radiometer_refpos)
SCALAR(urect_refpos_line_number)
SCALAR(ngridpoints_deformation_matrix)
SCALAR(grid_deformation_start)
SCALAR(grid_deformation_end)
SCALAR(grid_deformation_step)
SCALAR(number_corrected_channels)
SCALAR(chid_first_corrected)
SCALAR(chid_second_corrected)
SCALAR(urect_scanning_law)
SCALAR(urect_number_of_received_subimage)
SCALAR(urec_ir_channel_in_use)
SCALAR(urec_radiometer_step_offset_start)
SCALAR(urec_radiometer_step_south)
SCALAR(urec_radiometer_step_north)
SCALAR(subsatellite_point)
SCALAR(urec_rmid)
SCALAR(urec_start_image)
SCALAR(urec_end_image)
SCALAR(urec_time_of_first_pixel)
SCALAR(urec_tmid)
SCALAR(urec_distance_es)
SCALAR(urec_cone_angle_beta_south_obs)
SCALAR(urec_cone_angle_beta_north_obs)
SCALAR(urec_cone_angle_beta_south_exp)
SCALAR(urec_cone_angle_beta_north_exp)
SCALAR(urec_etas)
SCALAR(urec_etan)
SCALAR(urec_betasn)
SCALAR(urec_betann)
SCALAR(urec_step_parameter_F0_old)
SCALAR(urec_step_parameter_F1_old)
SCALAR(urec_step_parameter_F0_new)
SCALAR(urec_step_parameter_F1_new)
SCALAR(urec_spin_deviation_fit_const)
SCALAR(urec_spin_deviation_fit_linear)
SCALAR(urec_spin_deviation_fit_quad)
SCALAR(urec_standard_deviation_spin_fit)
SCALAR(urec_maximum_deviation_spin_fit)
ARRAY(urect_first_line_in_subimage, 20)
ARRAY(urect_nlines_in_subimage, 20)
ARRAY(urect_curr_decoded_rad_pos_of_first_line_in_subimage, 20)
ARRAY(urect_raw_image_histogram, 256)
ARRAY(urect_raw_image_histogram_VISn, 256)
ARRAY(urec_orbit_coord_in_geoframe_start, 6)
ARRAY(urec_orbit_coord_in_geoframe_end, 6)
ARRAY(urec_cartesian_attitude_start, 3)
ARRAY(urec_cartesian_attitude_end, 3)
ARRAY(urec_horizon_information, 12)
ARRAY(urec_horizon_limit_information, 12)
ARRAY(urec_times_of_horizon_scan_lines, 2)
ARRAY(deformation_matrix_x, 11025)
ARRAY(deformation_matrix_y, 11025)
ARRAY(line_geometric_correction_EW_1, 3030)
ARRAY(line_geometric_correction_NS_1, 3030)
ARRAY(line_radiometric_correction_offset_1, 3030)
ARRAY(line_radiometric_correction_gain_1, 3030)
ARRAY(line_geometric_correction_EW_2, 3030)
ARRAY(line_geometric_correction_NS_2, 3030)
ARRAY(line_radiometric_correction_offset_2, 3030)
ARRAY(line_radiometric_correction_gain_2, 3030)
FLAG(is_no_data_slot)
FLAG(is_normal_slot)
FLAG(is_special_slot)
FLAG(is_raw_data)
FLAG(is_ir_processed)
FLAG(is_vis_processed)
FLAG(is_wv_processed)
FLAG(is_rectified_to_next_neighbour)
FLAG(is_no_data)
FLAG(is_VISs_data)
FLAG(is_VISn_data)
FLAG(is_visible_composite)
FLAG(is_ir1_data)
FLAG(is_ir2_data)
FLAG(is_wv1_data)
FLAG(is_wv2_data)
FLAG(is_deformation_none)
FLAG(is_deformation_batch)
FLAG(is_deformation_realtime)
FLAG(is_resampling_none)
FLAG(is_resampling_nearest_neighbour)
FLAG(is_resampling_splines_4x4)
FLAG(is_south_east)
FLAG(is_north_east)
FLAG(is_north_west)
FLAG(is_south_west)
FLAG(is_image_quality_nominal)
FLAG(is_image_attitude_unknown)
FLAG(is_image_orbit_unknown)
FLAG(is_image_horizon_incomplete)
FLAG(is_image_deformation_not_calculated)
FLAG(is_image_RADOPOS_LID_inconsistent)
FLAG(is_image_HR_not_interpreted)
FLAG(is_urect_raw_data)
FLAG(is_urect_preprocessed_data)
FLAG(is_urect_special_output_no_data)
FLAG(is_urect_special_output_VISs_IR_WV)
FLAG(is_urect_special_output_VISn)
FLAG(is_urect_special_output_VISs_VISn)
FLAG(is_urec_horizon_analysis_ok)
FLAG(is_urec_spin_speed_fit_ok)
FLAG(is_urec_orbit_offset_vector_fit_ok)
FLAG(is_urec_pixel_resampling_rate_fit_ok)
FLAG(is_urec_attitude_refinement_ok)
FLAG(is_urec_automatic_landmark_ok)
FLAG(is_urec_actual_image_movement_fit_ok)
FLAG(is_urec_calculation_of_deformation_ok)
FLAG(is_urec_geometrical_LPEF_ok)
FLAG(is_urec_rectification_segmentation_ok)
FLAG(is_urec_amplitude_processing_ok)
