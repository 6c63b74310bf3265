// every field of prologue (with the configuration part of native files) and epilogue, by its path
typedef std::function<json(const MSG_data_level_15_header&, const std::vector<int>&)> HeaderField;
typedef std::function<json(const MSG_data_level_15_trailer&, const std::vector<int>&)> TrailerField;
static const std::map<std::string, HeaderField> header_fields = {
{"sat_status.SatelliteDefinition.SatelliteId", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.sat_status.SatelliteDefinition.SatelliteId); }},
{"sat_status.SatelliteDefinition.NominalLongitude", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.sat_status.SatelliteDefinition.NominalLongitude); }},
{"sat_status.SatelliteDefinition.SatelliteStatus", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.sat_status.SatelliteDefinition.SatelliteStatus); }},
{"sat_status.SatelliteOperations.LastManoeuvreFlag", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.sat_status.SatelliteOperations.LastManoeuvreFlag); }},
{"sat_status.SatelliteOperations.LastManouvreStartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.SatelliteOperations.LastManouvreStartTime); }},
{"sat_status.SatelliteOperations.LastManouvreEndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.SatelliteOperations.LastManouvreEndTime); }},
{"sat_status.SatelliteOperations.LastManouvreType", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.sat_status.SatelliteOperations.LastManouvreType); }},
{"sat_status.SatelliteOperations.NextManoeuvreFlag", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.sat_status.SatelliteOperations.NextManoeuvreFlag); }},
{"sat_status.SatelliteOperations.NextManouvreStartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.SatelliteOperations.NextManouvreStartTime); }},
{"sat_status.SatelliteOperations.NextManouvreEndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.SatelliteOperations.NextManouvreEndTime); }},
{"sat_status.SatelliteOperations.NextManouvreType", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.sat_status.SatelliteOperations.NextManouvreType); }},
{"sat_status.Orbit.PeriodStartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.Orbit.PeriodStartTime); }},
{"sat_status.Orbit.PeriodEndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.Orbit.PeriodEndTime); }},
{"sat_status.Orbit.OrbitPoliniomal.StartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.Orbit.OrbitPoliniomal[i[0]].StartTime); }},
{"sat_status.Orbit.OrbitPoliniomal.EndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.Orbit.OrbitPoliniomal[i[0]].EndTime); }},
{"sat_status.Orbit.OrbitPoliniomal.X", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Orbit.OrbitPoliniomal[i[0]].X[i[1]]); }},
{"sat_status.Orbit.OrbitPoliniomal.Y", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Orbit.OrbitPoliniomal[i[0]].Y[i[1]]); }},
{"sat_status.Orbit.OrbitPoliniomal.Z", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Orbit.OrbitPoliniomal[i[0]].Z[i[1]]); }},
{"sat_status.Orbit.OrbitPoliniomal.VX", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Orbit.OrbitPoliniomal[i[0]].VX[i[1]]); }},
{"sat_status.Orbit.OrbitPoliniomal.VY", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Orbit.OrbitPoliniomal[i[0]].VY[i[1]]); }},
{"sat_status.Orbit.OrbitPoliniomal.VZ", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Orbit.OrbitPoliniomal[i[0]].VZ[i[1]]); }},
{"sat_status.Attitude.PeriodStartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.Attitude.PeriodStartTime); }},
{"sat_status.Attitude.PeriodEndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.Attitude.PeriodEndTime); }},
{"sat_status.Attitude.PrincipalAxisOffsetAngle", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Attitude.PrincipalAxisOffsetAngle); }},
{"sat_status.Attitude.AttitudePolynomial.StartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.Attitude.AttitudePolynomial[i[0]].StartTime); }},
{"sat_status.Attitude.AttitudePolynomial.EndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.Attitude.AttitudePolynomial[i[0]].EndTime); }},
{"sat_status.Attitude.AttitudePolynomial.XOfSpinAxis", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Attitude.AttitudePolynomial[i[0]].XOfSpinAxis[i[1]]); }},
{"sat_status.Attitude.AttitudePolynomial.YOfSpinAxis", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Attitude.AttitudePolynomial[i[0]].YOfSpinAxis[i[1]]); }},
{"sat_status.Attitude.AttitudePolynomial.ZOfSpinAxis", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.Attitude.AttitudePolynomial[i[0]].ZOfSpinAxis[i[1]]); }},
{"sat_status.SpinRateatRCStart", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.SpinRateatRCStart); }},
{"sat_status.UTCCorrelation.PeriodStartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.UTCCorrelation.PeriodStartTime); }},
{"sat_status.UTCCorrelation.PeriodEndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.sat_status.UTCCorrelation.PeriodEndTime); }},
{"sat_status.UTCCorrelation.OnBoardTimeStart", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cuc7(t.sat_status.UTCCorrelation.OnBoardTimeStart); }},
{"sat_status.UTCCorrelation.VarOnBoardTimeStart", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.UTCCorrelation.VarOnBoardTimeStart); }},
{"sat_status.UTCCorrelation.A1", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.UTCCorrelation.A1); }},
{"sat_status.UTCCorrelation.VarA1", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.UTCCorrelation.VarA1); }},
{"sat_status.UTCCorrelation.A2", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.UTCCorrelation.A2); }},
{"sat_status.UTCCorrelation.VarA2", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.sat_status.UTCCorrelation.VarA2); }},
{"image_acquisition.PlannedAquisitionTime.TrueRepeatCycleStart", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds10(t.image_acquisition.PlannedAquisitionTime.TrueRepeatCycleStart); }},
{"image_acquisition.PlannedAquisitionTime.PlannedForwardScanEnd", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds10(t.image_acquisition.PlannedAquisitionTime.PlannedForwardScanEnd); }},
{"image_acquisition.PlannedAquisitionTime.PlannedRepeatCycleEnd", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds10(t.image_acquisition.PlannedAquisitionTime.PlannedRepeatCycleEnd); }},
{"image_acquisition.RadiometerStatus.ChannelStatus", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_acquisition.RadiometerStatus.ChannelStatus[i[0]]); }},
{"image_acquisition.RadiometerStatus.DetectorStatus", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_acquisition.RadiometerStatus.DetectorStatus[i[0]]); }},
{"image_acquisition.RadiometerSettings.MDUSamplingDelays", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.MDUSamplingDelays[i[0]]); }},
{"image_acquisition.RadiometerSettings.MDUNomHRVDelay1", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.MDUNomHRVDelay1); }},
{"image_acquisition.RadiometerSettings.MDUNomHRVDelay2", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.MDUNomHRVDelay2); }},
{"image_acquisition.RadiometerSettings.MDUNomHRVBreakline", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.MDUNomHRVBreakline); }},
{"image_acquisition.RadiometerSettings.DHSSyncSelection", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_acquisition.RadiometerSettings.DHSSyncSelection); }},
{"image_acquisition.RadiometerSettings.MDUOutGain", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.MDUOutGain[i[0]]); }},
{"image_acquisition.RadiometerSettings.MDUCoarseGain", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_acquisition.RadiometerSettings.MDUCoarseGain[i[0]]); }},
{"image_acquisition.RadiometerSettings.MDUFineGain", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.MDUFineGain[i[0]]); }},
{"image_acquisition.RadiometerSettings.MDUNumericalOffset", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.MDUNumericalOffset[i[0]]); }},
{"image_acquisition.RadiometerSettings.PUGain", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.PUGain[i[0]]); }},
{"image_acquisition.RadiometerSettings.PUOffset", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.PUOffset[i[0]]); }},
{"image_acquisition.RadiometerSettings.PUBias", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.PUBias[i[0]]); }},
{"image_acquisition.RadiometerSettings.L0_LineCounter", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.L0_LineCounter); }},
{"image_acquisition.RadiometerSettings.K1_RetraceLines", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.K1_RetraceLines); }},
{"image_acquisition.RadiometerSettings.K2_PauseDeciseconds", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.K2_PauseDeciseconds); }},
{"image_acquisition.RadiometerSettings.K3_RetraceLines", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.K3_RetraceLines); }},
{"image_acquisition.RadiometerSettings.K4_PauseDeciseconds", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.K4_PauseDeciseconds); }},
{"image_acquisition.RadiometerSettings.K5_RetraceLines", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.K5_RetraceLines); }},
{"image_acquisition.RadiometerSettings.X_DeepSpaceWindowPosition", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_acquisition.RadiometerSettings.X_DeepSpaceWindowPosition); }},
{"image_acquisition.RadiometerSettings.RefocusingLines", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.RefocusingLines); }},
{"image_acquisition.RadiometerSettings.RefocusingDirection", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_acquisition.RadiometerSettings.RefocusingDirection); }},
{"image_acquisition.RadiometerSettings.RefocusingPosition", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.RefocusingPosition); }},
{"image_acquisition.RadiometerSettings.ScanRefPosFlag", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.image_acquisition.RadiometerSettings.ScanRefPosFlag); }},
{"image_acquisition.RadiometerSettings.ScanRefPosNumber", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.ScanRefPosNumber); }},
{"image_acquisition.RadiometerSettings.ScanRefPotVal", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.image_acquisition.RadiometerSettings.ScanRefPotVal); }},
{"image_acquisition.RadiometerSettings.ScanFirstLine", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.ScanFirstLine); }},
{"image_acquisition.RadiometerSettings.ScanLastLine", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.ScanLastLine); }},
{"image_acquisition.RadiometerSettings.RetraceStartLine", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerSettings.RetraceStartLine); }},
{"image_acquisition.RadiometerOperations.LastGainChangeFlag", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.image_acquisition.RadiometerOperations.LastGainChangeFlag); }},
{"image_acquisition.RadiometerOperations.LastGainChangeTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.image_acquisition.RadiometerOperations.LastGainChangeTime); }},
{"image_acquisition.RadiometerOperations.DecontaminationNow", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.image_acquisition.RadiometerOperations.DecontaminationNow); }},
{"image_acquisition.RadiometerOperations.DecontaminationStart", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.image_acquisition.RadiometerOperations.DecontaminationStart); }},
{"image_acquisition.RadiometerOperations.DecontaminationEnd", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.image_acquisition.RadiometerOperations.DecontaminationEnd); }},
{"image_acquisition.RadiometerOperations.BBCalScheduled", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.image_acquisition.RadiometerOperations.BBCalScheduled); }},
{"image_acquisition.RadiometerOperations.BBCalibrationType", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_acquisition.RadiometerOperations.BBCalibrationType); }},
{"image_acquisition.RadiometerOperations.BBFirstLine", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerOperations.BBFirstLine); }},
{"image_acquisition.RadiometerOperations.BBLastLine", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerOperations.BBLastLine); }},
{"image_acquisition.RadiometerOperations.ColdFocalPlaneOpTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerOperations.ColdFocalPlaneOpTemp); }},
{"image_acquisition.RadiometerOperations.WarmFocalPlaneOpTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.image_acquisition.RadiometerOperations.WarmFocalPlaneOpTemp); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.PeriodStartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.PeriodStartTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.PeriodEndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.PeriodEndTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.RelatedOrbitFileTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_gt15(t.celestial_events.CelestialBodiesPosition.Ephemeris.RelatedOrbitFileTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.RelatedAttitudeFileTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_gt15(t.celestial_events.CelestialBodiesPosition.Ephemeris.RelatedAttitudeFileTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.EarthEphemeris.StartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.EarthEphemeris[i[0]].StartTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.EarthEphemeris.EndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.EarthEphemeris[i[0]].EndTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.EarthEphemeris.AlphaCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.celestial_events.CelestialBodiesPosition.Ephemeris.EarthEphemeris[i[0]].AlphaCoef[i[1]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.EarthEphemeris.BetaCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.celestial_events.CelestialBodiesPosition.Ephemeris.EarthEphemeris[i[0]].BetaCoef[i[1]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.MoonEphemeris.StartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.MoonEphemeris[i[0]].StartTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.MoonEphemeris.EndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.MoonEphemeris[i[0]].EndTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.MoonEphemeris.AlphaCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.celestial_events.CelestialBodiesPosition.Ephemeris.MoonEphemeris[i[0]].AlphaCoef[i[1]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.MoonEphemeris.BetaCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.celestial_events.CelestialBodiesPosition.Ephemeris.MoonEphemeris[i[0]].BetaCoef[i[1]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.SunEphemeris.StartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.SunEphemeris[i[0]].StartTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.SunEphemeris.EndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.SunEphemeris[i[0]].EndTime); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.SunEphemeris.AlphaCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.celestial_events.CelestialBodiesPosition.Ephemeris.SunEphemeris[i[0]].AlphaCoef[i[1]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.SunEphemeris.BetaCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.celestial_events.CelestialBodiesPosition.Ephemeris.SunEphemeris[i[0]].BetaCoef[i[1]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris.StarId", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris[i[0]].StarId[i[1]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris.StartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris[i[0]].StartTime[i[1]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris.EndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris[i[0]].EndTime[i[1]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris.AlphaCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris[i[0]].AlphaCoef[i[1]][i[2]]); }},
{"celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris.BetaCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.celestial_events.CelestialBodiesPosition.Ephemeris.StarEphemeris[i[0]].BetaCoef[i[1]][i[2]]); }},
{"celestial_events.RelationToImage.TypeofEclypse", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.celestial_events.RelationToImage.TypeofEclypse); }},
{"celestial_events.RelationToImage.EclipseStartTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.RelationToImage.EclipseStartTime); }},
{"celestial_events.RelationToImage.EclipseEndTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.celestial_events.RelationToImage.EclipseEndTime); }},
{"celestial_events.RelationToImage.VisibleBodiesInImage", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.celestial_events.RelationToImage.VisibleBodiesInImage); }},
{"celestial_events.RelationToImage.BodiesClosesttoFOV", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.celestial_events.RelationToImage.BodiesClosesttoFOV); }},
{"celestial_events.RelationToImage.ImpactOnImageQuality", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.celestial_events.RelationToImage.ImpactOnImageQuality); }},
{"image_description.ProjectionDescription.TypeOfProjection", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_description.ProjectionDescription.TypeOfProjection); }},
{"image_description.ProjectionDescription.LongitudeOfSSP", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.image_description.ProjectionDescription.LongitudeOfSSP); }},
{"image_description.ReferenceGridVIS_IR.NumberofLines", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.ReferenceGridVIS_IR.NumberofLines); }},
{"image_description.ReferenceGridVIS_IR.NumberofColumns", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.ReferenceGridVIS_IR.NumberofColumns); }},
{"image_description.ReferenceGridVIS_IR.LineDirGridStep", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.image_description.ReferenceGridVIS_IR.LineDirGridStep); }},
{"image_description.ReferenceGridVIS_IR.ColumnDirGridStep", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.image_description.ReferenceGridVIS_IR.ColumnDirGridStep); }},
{"image_description.ReferenceGridVIS_IR.GridOrigin", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_description.ReferenceGridVIS_IR.GridOrigin); }},
{"image_description.ReferenceGridHRV.NumberofLines", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.ReferenceGridHRV.NumberofLines); }},
{"image_description.ReferenceGridHRV.NumberofColumns", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.ReferenceGridHRV.NumberofColumns); }},
{"image_description.ReferenceGridHRV.LineDirGridStep", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.image_description.ReferenceGridHRV.LineDirGridStep); }},
{"image_description.ReferenceGridHRV.ColumnDirGridStep", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.image_description.ReferenceGridHRV.ColumnDirGridStep); }},
{"image_description.ReferenceGridHRV.GridOrigin", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_description.ReferenceGridHRV.GridOrigin); }},
{"image_description.PlannedCoverageVIS_IR.SouthernLinePlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageVIS_IR.SouthernLinePlanned); }},
{"image_description.PlannedCoverageVIS_IR.NorthernLinePlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageVIS_IR.NorthernLinePlanned); }},
{"image_description.PlannedCoverageVIS_IR.EasternColumnPlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageVIS_IR.EasternColumnPlanned); }},
{"image_description.PlannedCoverageVIS_IR.WesternColumnPlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageVIS_IR.WesternColumnPlanned); }},
{"image_description.PlannedCoverageHRV.LowerSouthLinePlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageHRV.LowerSouthLinePlanned); }},
{"image_description.PlannedCoverageHRV.LowerNorthLinePlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageHRV.LowerNorthLinePlanned); }},
{"image_description.PlannedCoverageHRV.LowerEastColumnPlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageHRV.LowerEastColumnPlanned); }},
{"image_description.PlannedCoverageHRV.LowerWestColumnPlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageHRV.LowerWestColumnPlanned); }},
{"image_description.PlannedCoverageHRV.UpperSouthLinePlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageHRV.UpperSouthLinePlanned); }},
{"image_description.PlannedCoverageHRV.UpperNorthLinePlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageHRV.UpperNorthLinePlanned); }},
{"image_description.PlannedCoverageHRV.UpperEastColumnPlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageHRV.UpperEastColumnPlanned); }},
{"image_description.PlannedCoverageHRV.UpperWestColumnPlanned", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_i4(t.image_description.PlannedCoverageHRV.UpperWestColumnPlanned); }},
{"image_description.Level1_5ImageProduction.ImageProcDirection", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_description.Level1_5ImageProduction.ImageProcDirection); }},
{"image_description.Level1_5ImageProduction.PixelGenDirection", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.image_description.Level1_5ImageProduction.PixelGenDirection); }},
{"image_description.Level1_5ImageProduction.PlannedChanProcessing", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.image_description.Level1_5ImageProduction.PlannedChanProcessing[i[0]]); }},
{"radiometric_proc.RPSummary.RadianceLinearization", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.radiometric_proc.RPSummary.RadianceLinearization[i[0]]); }},
{"radiometric_proc.RPSummary.DetectorEqualization", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.radiometric_proc.RPSummary.DetectorEqualization[i[0]]); }},
{"radiometric_proc.RPSummary.OnboardCalibrationResult", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.radiometric_proc.RPSummary.OnboardCalibrationResult[i[0]]); }},
{"radiometric_proc.RPSummary.MPEFCalFeedBack", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.radiometric_proc.RPSummary.MPEFCalFeedBack[i[0]]); }},
{"radiometric_proc.RPSummary.MTFAdaptation", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.radiometric_proc.RPSummary.MTFAdaptation[i[0]]); }},
{"radiometric_proc.RPSummary.StraylightCorrectionFlag", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_b1(t.radiometric_proc.RPSummary.StraylightCorrectionFlag[i[0]]); }},
{"radiometric_proc.ImageCalibration.Cal_Slope", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.radiometric_proc.ImageCalibration[i[0]].Cal_Slope); }},
{"radiometric_proc.ImageCalibration.Cal_Offset", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.radiometric_proc.ImageCalibration[i[0]].Cal_Offset); }},
{"radiometric_proc.BlackBodyDataUsed.BBObservationUTC", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds10(t.radiometric_proc.BlackBodyDataUsed.BBObservationUTC); }},
{"radiometric_proc.BlackBodyDataUsed.OnBoardBBTime", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cuc7(t.radiometric_proc.BlackBodyDataUsed.OnBoardBBTime); }},
{"radiometric_proc.BlackBodyDataUsed.MDUOutGain", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.MDUOutGain[i[0]]); }},
{"radiometric_proc.BlackBodyDataUsed.MDUCoarseGain", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.radiometric_proc.BlackBodyDataUsed.MDUCoarseGain[i[0]]); }},
{"radiometric_proc.BlackBodyDataUsed.MDUFineGain", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.MDUFineGain[i[0]]); }},
{"radiometric_proc.BlackBodyDataUsed.MDUNumerical_Offset", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.MDUNumerical_Offset[i[0]]); }},
{"radiometric_proc.BlackBodyDataUsed.PUGain", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.PUGain[i[0]]); }},
{"radiometric_proc.BlackBodyDataUsed.PUOffset", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.PUOffset[i[0]]); }},
{"radiometric_proc.BlackBodyDataUsed.PUBias", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.PUBias[i[0]]); }},
{"radiometric_proc.BlackBodyDataUsed.DCRValues", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_raw63(t.radiometric_proc.BlackBodyDataUsed.DCRValues); }},
{"radiometric_proc.BlackBodyDataUsed.XDeepSpaceWindowPosition", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.radiometric_proc.BlackBodyDataUsed.XDeepSpaceWindowPosition); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalColdFocalPlaneTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCUNominalColdFocalPlaneTemp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantColdFocalPlaneTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCURedundantColdFocalPlaneTemp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalWarmFocalPlaneVHROTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCUNominalWarmFocalPlaneVHROTemp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantWarmFocalPlaneVHROTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCURedundantWarmFocalPlaneVHROTemp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalScanMirrorSensor1Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCUNominalScanMirrorSensor1Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantScanMirrorSensor1Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCURedundantScanMirrorSensor1Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalScanMirrorSensor2Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCUNominalScanMirrorSensor2Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantScanMirrorSensor2Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCURedundantScanMirrorSensor2Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalM1MirrorSensor1Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCUNominalM1MirrorSensor1Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantM1MirrorSensor1Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCURedundantM1MirrorSensor1Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalM1MirrorSensor2Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCUNominalM1MirrorSensor2Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantM1MirrorSensor2Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCURedundantM1MirrorSensor2Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalM23AssemblySensor1Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.radiometric_proc.BlackBodyDataUsed.FCUNominalM23AssemblySensor1Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantM23AssemblySensor1Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.radiometric_proc.BlackBodyDataUsed.FCURedundantM23AssemblySensor1Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalM23AssemblySensor2Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.radiometric_proc.BlackBodyDataUsed.FCUNominalM23AssemblySensor2Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantM23AssemblySensor2Temp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.radiometric_proc.BlackBodyDataUsed.FCURedundantM23AssemblySensor2Temp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalM1BaffleTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCUNominalM1BaffleTemp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantM1BaffleTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCURedundantM1BaffleTemp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalBlackBodySensorTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCUNominalBlackBodySensorTemp); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantBlackBodySensorTemp", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.FCURedundantBlackBodySensorTemp); }},
{"radiometric_proc.BlackBodyDataUsed.FCUNominalSMMStatus", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_raw2(t.radiometric_proc.BlackBodyDataUsed.FCUNominalSMMStatus); }},
{"radiometric_proc.BlackBodyDataUsed.FCURedundantSMMStatus", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_raw2(t.radiometric_proc.BlackBodyDataUsed.FCURedundantSMMStatus); }},
{"radiometric_proc.BlackBodyDataUsed.ExtractedBBData.NumberOfPixelsUsed", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_proc.BlackBodyDataUsed.ExtractedBBData[i[0]].NumberOfPixelsUsed); }},
{"radiometric_proc.BlackBodyDataUsed.ExtractedBBData.MeanCount", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.BlackBodyDataUsed.ExtractedBBData[i[0]].MeanCount); }},
{"radiometric_proc.BlackBodyDataUsed.ExtractedBBData.RMS", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.BlackBodyDataUsed.ExtractedBBData[i[0]].RMS); }},
{"radiometric_proc.BlackBodyDataUsed.ExtractedBBData.MaxCount", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.ExtractedBBData[i[0]].MaxCount); }},
{"radiometric_proc.BlackBodyDataUsed.ExtractedBBData.MinCount", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_proc.BlackBodyDataUsed.ExtractedBBData[i[0]].MinCount); }},
{"radiometric_proc.BlackBodyDataUsed.ExtractedBBData.BB_Processing_Slope", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.radiometric_proc.BlackBodyDataUsed.ExtractedBBData[i[0]].BB_Processing_Slope); }},
{"radiometric_proc.BlackBodyDataUsed.ExtractedBBData.BB_Processing_Offset", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.radiometric_proc.BlackBodyDataUsed.ExtractedBBData[i[0]].BB_Processing_Offset); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.ImageQualityFlag", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].ImageQualityFlag); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.ReferenceDataFlag", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].ReferenceDataFlag); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.AbsCalMethod", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].AbsCalMethod); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.AbsCalWeightVic", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].AbsCalWeightVic); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.AbsCalWeightXsat", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].AbsCalWeightXsat); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.AbsCalCoeff", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].AbsCalCoeff); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.AbsCalError", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].AbsCalError); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.CalMonBias", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].CalMonBias); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.CalMonRms", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].CalMonRms); }},
{"radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data.OffsetCount", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.MPEFCalFeedback.IMPF_CAL_Data[i[0]].OffsetCount); }},
{"radiometric_proc.RadTransform", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.RadTransform[i[0]][i[1]]); }},
{"radiometric_proc.RadProcMTFAdaptation.VIS_IRMTFCorrectionE_W", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.RadProcMTFAdaptation.VIS_IRMTFCorrectionE_W[i[0]][i[1]]); }},
{"radiometric_proc.RadProcMTFAdaptation.VIS_IRMTFCorrectionN_S", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.RadProcMTFAdaptation.VIS_IRMTFCorrectionN_S[i[0]][i[1]]); }},
{"radiometric_proc.RadProcMTFAdaptation.HRVIRMTFCorrectionE_W", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.RadProcMTFAdaptation.HRVIRMTFCorrectionE_W[i[0]][i[1]]); }},
{"radiometric_proc.RadProcMTFAdaptation.HRVIRMTFCorrectionN_S", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.RadProcMTFAdaptation.HRVIRMTFCorrectionN_S[i[0]][i[1]]); }},
{"radiometric_proc.StraylightCorrection", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_proc.StraylightCorrection[i[0]][i[1]][i[2]]); }},
{"geometric_proc.OptAxisDistances.E_W_FocalPlane", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_proc.OptAxisDistances.E_W_FocalPlane[i[0]]); }},
{"geometric_proc.OptAxisDistances.N_S_FocalPlane", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_proc.OptAxisDistances.N_S_FocalPlane[i[0]]); }},
{"geometric_proc.EarthModel.TypeofEarthModel", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_proc.EarthModel.TypeofEarthModel); }},
{"geometric_proc.EarthModel.EquatorialRadius", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.geometric_proc.EarthModel.EquatorialRadius); }},
{"geometric_proc.EarthModel.NorthPolarRadius", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.geometric_proc.EarthModel.NorthPolarRadius); }},
{"geometric_proc.EarthModel.SouthPolarRadius", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.geometric_proc.EarthModel.SouthPolarRadius); }},
{"geometric_proc.AtmosphericModel", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_proc.AtmosphericModel[i[0]][i[1]]); }},
{"geometric_proc.ResamplingFunction", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_proc.ResamplingFunction[i[0]]); }},
{"IMPF_config.GPConfigItemVersion.Issue", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.IMPF_config.GPConfigItemVersion.Issue); }},
{"IMPF_config.GPConfigItemVersion.Revision", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.IMPF_config.GPConfigItemVersion.Revision); }},
{"IMPF_config.SuDetails.SoftwareUnitId", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u4(t.IMPF_config.SuDetails[i[0]].SoftwareUnitId); }},
{"IMPF_config.SuDetails.SUIdInstance", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.IMPF_config.SuDetails[i[0]].SUIdInstance); }},
{"IMPF_config.SuDetails.SUMode", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.IMPF_config.SuDetails[i[0]].SUMode); }},
{"IMPF_config.SuDetails.SUState", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u1(t.IMPF_config.SuDetails[i[0]].SUState); }},
{"IMPF_config.SuDetails.SUConfiguration.SWVersion.Issue", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.IMPF_config.SuDetails[i[0]].SUConfiguration.SWVersion.Issue); }},
{"IMPF_config.SuDetails.SUConfiguration.SWVersion.Revision", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.IMPF_config.SuDetails[i[0]].SUConfiguration.SWVersion.Revision); }},
{"IMPF_config.SuDetails.SUConfiguration.InfoBaseVersion.Issue", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.IMPF_config.SuDetails[i[0]].SUConfiguration.InfoBaseVersion[i[1]].Issue); }},
{"IMPF_config.SuDetails.SUConfiguration.InfoBaseVersion.Revision", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_u2(t.IMPF_config.SuDetails[i[0]].SUConfiguration.InfoBaseVersion[i[1]].Revision); }},
{"IMPF_config.WarmStartParms.ScanningLaw", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.ScanningLaw[i[0]]); }},
{"IMPF_config.WarmStartParms.RadFramesAlignment", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.RadFramesAlignment[i[0]]); }},
{"IMPF_config.WarmStartParms.ScanningLawVariation", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.IMPF_config.WarmStartParms.ScanningLawVariation[i[0]]); }},
{"IMPF_config.WarmStartParms.EqualisationParms.ConstCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.IMPF_config.WarmStartParms.EqualisationParms[i[0]].ConstCoef); }},
{"IMPF_config.WarmStartParms.EqualisationParms.LinearCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.IMPF_config.WarmStartParms.EqualisationParms[i[0]].LinearCoef); }},
{"IMPF_config.WarmStartParms.EqualisationParms.QuadraticCoef", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.IMPF_config.WarmStartParms.EqualisationParms[i[0]].QuadraticCoef); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GTotalForMethod1", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GTotalForMethod1[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GTotalForMethod2", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GTotalForMethod2[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GTotalForMethod3", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GTotalForMethod3[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GBackForMethod1", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GBackForMethod1[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GBackForMethod2", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GBackForMethod2[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GBackForMethod3", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GBackForMethod3[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.RatioGTotalToGBack", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.RatioGTotalToGBack[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GainInFrontOpticsCont", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.GainInFrontOpticsCont[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.CalibrationConstants", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f4(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.CalibrationConstants[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TimeOfColdObsSeconds", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TimeOfColdObsSeconds); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TimeOfColdObsNanoSecs", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TimeOfColdObsNanoSecs); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.IncidentRadiance", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.IncidentRadiance[i[0]]); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempCal", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempCal); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempM1", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempM1); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempScan", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempScan); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempM1Baf", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempM1Baf); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempCalSurround", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.TempCalSurround); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.MirrorParameters.MaxFeedbackVoltage", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.MirrorParameters.MaxFeedbackVoltage); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.MirrorParameters.MinFeedbackVoltage", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.MirrorParameters.MinFeedbackVoltage); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.MirrorParameters.MirrorSlipEstimate", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.MirrorParameters.MirrorSlipEstimate); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.LastSpinPeriod", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_f8(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.LastSpinPeriod); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS0Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS0Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS1Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS1Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS2Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS2Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS3Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS3Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS4Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS4Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS5Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS5Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS6Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS6Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS7Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS7Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS8Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS8Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS9Packet", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeS9Packet); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeSYPacket", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimeSYPacket); }},
{"IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimePSPacket", [](const MSG_data_level_15_header& t, const std::vector<int>& i) -> json { return f_cds6(t.IMPF_config.WarmStartParms.BlackBodyDataWarmStart.HKTMParameters.TimePSPacket); }},
};
static const std::map<std::string, TrailerField> trailer_fields = {
{"product_stats.SatelliteId", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.product_stats.SatelliteId); }},
{"product_stats.ActualScanningSummary.NominalImageScanning", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.ActualScanningSummary.NominalImageScanning); }},
{"product_stats.ActualScanningSummary.ReducedScan", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.ActualScanningSummary.ReducedScan); }},
{"product_stats.ActualScanningSummary.ForwardScanStart", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_cds6(t.product_stats.ActualScanningSummary.ForwardScanStart); }},
{"product_stats.ActualScanningSummary.ForwardScanEnd", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_cds6(t.product_stats.ActualScanningSummary.ForwardScanEnd); }},
{"product_stats.RadiometerBehaviour.NominalBehaviour", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.NominalBehaviour); }},
{"product_stats.RadiometerBehaviour.RadScanIrregularity", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.RadScanIrregularity); }},
{"product_stats.RadiometerBehaviour.RadStoppage", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.RadStoppage); }},
{"product_stats.RadiometerBehaviour.RepeatCycleNotCompleted", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.RepeatCycleNotCompleted); }},
{"product_stats.RadiometerBehaviour.GainChangeTookPlace", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.GainChangeTookPlace); }},
{"product_stats.RadiometerBehaviour.DecontaminationTookPlace", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.DecontaminationTookPlace); }},
{"product_stats.RadiometerBehaviour.NoBBCalibrationAchieved", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.NoBBCalibrationAchieved); }},
{"product_stats.RadiometerBehaviour.IncorrectTemperature", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.IncorrectTemperature); }},
{"product_stats.RadiometerBehaviour.InvalidBBData", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.InvalidBBData); }},
{"product_stats.RadiometerBehaviour.InvalidAuxOrHKTMData", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.InvalidAuxOrHKTMData); }},
{"product_stats.RadiometerBehaviour.RefocusingMechanismActuated", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.RefocusingMechanismActuated); }},
{"product_stats.RadiometerBehaviour.MirrorBackToReferencePos", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.RadiometerBehaviour.MirrorBackToReferencePos); }},
{"product_stats.ReceptionSummaryStats.PlannedNumberOfL10Lines", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.product_stats.ReceptionSummaryStats.PlannedNumberOfL10Lines[i[0]]); }},
{"product_stats.ReceptionSummaryStats.NumberOfMissingL10Lines", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.product_stats.ReceptionSummaryStats.NumberOfMissingL10Lines[i[0]]); }},
{"product_stats.ReceptionSummaryStats.NumberOfCorruptedL10Lines", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.product_stats.ReceptionSummaryStats.NumberOfCorruptedL10Lines[i[0]]); }},
{"product_stats.ReceptionSummaryStats.NumberOfReplacedL10Lines", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.product_stats.ReceptionSummaryStats.NumberOfReplacedL10Lines[i[0]]); }},
{"product_stats.L15ImageValidity.NominalImage", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.L15ImageValidity[i[0]].NominalImage); }},
{"product_stats.L15ImageValidity.NonNominalBecauseIncomplete", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.L15ImageValidity[i[0]].NonNominalBecauseIncomplete); }},
{"product_stats.L15ImageValidity.NonNominalRadiometricQuality", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.L15ImageValidity[i[0]].NonNominalRadiometricQuality); }},
{"product_stats.L15ImageValidity.NonNominalGeometricQuality", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.L15ImageValidity[i[0]].NonNominalGeometricQuality); }},
{"product_stats.L15ImageValidity.NonNominalTimeliness", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.L15ImageValidity[i[0]].NonNominalTimeliness); }},
{"product_stats.L15ImageValidity.IncompleteL15", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.product_stats.L15ImageValidity[i[0]].IncompleteL15); }},
{"product_stats.ActualL15CoverageVIS_IR.SouthernLineActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageVIS_IR.SouthernLineActual); }},
{"product_stats.ActualL15CoverageVIS_IR.NorthernLineActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageVIS_IR.NorthernLineActual); }},
{"product_stats.ActualL15CoverageVIS_IR.EasternColumnActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageVIS_IR.EasternColumnActual); }},
{"product_stats.ActualL15CoverageVIS_IR.WesternColumnActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageVIS_IR.WesternColumnActual); }},
{"product_stats.ActualL15CoverageHRV.LowerSouthLineActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageHRV.LowerSouthLineActual); }},
{"product_stats.ActualL15CoverageHRV.LowerNorthLineActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageHRV.LowerNorthLineActual); }},
{"product_stats.ActualL15CoverageHRV.LowerEastColumnActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageHRV.LowerEastColumnActual); }},
{"product_stats.ActualL15CoverageHRV.LowerWestColumnActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageHRV.LowerWestColumnActual); }},
{"product_stats.ActualL15CoverageHRV.UpperSouthLineActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageHRV.UpperSouthLineActual); }},
{"product_stats.ActualL15CoverageHRV.UpperNorthLineActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageHRV.UpperNorthLineActual); }},
{"product_stats.ActualL15CoverageHRV.UpperEastColumnActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageHRV.UpperEastColumnActual); }},
{"product_stats.ActualL15CoverageHRV.UpperWestColumnActual", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_i4(t.product_stats.ActualL15CoverageHRV.UpperWestColumnActual); }},
{"navig_result.ExtractedHorizons.HorizonId", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.navig_result.ExtractedHorizons[i[0]].HorizonId); }},
{"navig_result.ExtractedHorizons.Alpha", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedHorizons[i[0]].Alpha); }},
{"navig_result.ExtractedHorizons.AlphaConfidence", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedHorizons[i[0]].AlphaConfidence); }},
{"navig_result.ExtractedHorizons.Beta", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedHorizons[i[0]].Beta); }},
{"navig_result.ExtractedHorizons.BetaConfidence", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedHorizons[i[0]].BetaConfidence); }},
{"navig_result.ExtractedHorizons.ObservationTime", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_cds8(t.navig_result.ExtractedHorizons[i[0]].ObservationTime); }},
{"navig_result.ExtractedHorizons.SpinRate", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedHorizons[i[0]].SpinRate); }},
{"navig_result.ExtractedHorizons.AlphaDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedHorizons[i[0]].AlphaDeviation); }},
{"navig_result.ExtractedHorizons.BetaDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedHorizons[i[0]].BetaDeviation); }},
{"navig_result.ExtractedStars.StarId", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.navig_result.ExtractedStars[i[0]].StarId); }},
{"navig_result.ExtractedStars.Alpha", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedStars[i[0]].Alpha); }},
{"navig_result.ExtractedStars.AlphaConfidence", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedStars[i[0]].AlphaConfidence); }},
{"navig_result.ExtractedStars.Beta", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedStars[i[0]].Beta); }},
{"navig_result.ExtractedStars.BetaConfidence", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedStars[i[0]].BetaConfidence); }},
{"navig_result.ExtractedStars.ObservationTime", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_cds8(t.navig_result.ExtractedStars[i[0]].ObservationTime); }},
{"navig_result.ExtractedStars.SpinRate", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedStars[i[0]].SpinRate); }},
{"navig_result.ExtractedStars.AlphaDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedStars[i[0]].AlphaDeviation); }},
{"navig_result.ExtractedStars.BetaDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedStars[i[0]].BetaDeviation); }},
{"navig_result.ExtractedLandmarks.LandmarkId", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.navig_result.ExtractedLandmarks[i[0]].LandmarkId); }},
{"navig_result.ExtractedLandmarks.LandmarkLongitude", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedLandmarks[i[0]].LandmarkLongitude); }},
{"navig_result.ExtractedLandmarks.LandmarkLatitude", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedLandmarks[i[0]].LandmarkLatitude); }},
{"navig_result.ExtractedLandmarks.Alpha", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedLandmarks[i[0]].Alpha); }},
{"navig_result.ExtractedLandmarks.AlphaConfidence", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedLandmarks[i[0]].AlphaConfidence); }},
{"navig_result.ExtractedLandmarks.Beta", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedLandmarks[i[0]].Beta); }},
{"navig_result.ExtractedLandmarks.BetaConfidence", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedLandmarks[i[0]].BetaConfidence); }},
{"navig_result.ExtractedLandmarks.ObservationTime", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_cds8(t.navig_result.ExtractedLandmarks[i[0]].ObservationTime); }},
{"navig_result.ExtractedLandmarks.SpinRate", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedLandmarks[i[0]].SpinRate); }},
{"navig_result.ExtractedLandmarks.AlphaDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedLandmarks[i[0]].AlphaDeviation); }},
{"navig_result.ExtractedLandmarks.BetaDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f8(t.navig_result.ExtractedLandmarks[i[0]].BetaDeviation); }},
{"radiometric_qlty.L10RadQuality.FullImageMinimumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L10RadQuality[i[0]].FullImageMinimumCount); }},
{"radiometric_qlty.L10RadQuality.FullImageMaximumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L10RadQuality[i[0]].FullImageMaximumCount); }},
{"radiometric_qlty.L10RadQuality.EarthDiskMinimumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L10RadQuality[i[0]].EarthDiskMinimumCount); }},
{"radiometric_qlty.L10RadQuality.EarthDiskMaximumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L10RadQuality[i[0]].EarthDiskMaximumCount); }},
{"radiometric_qlty.L10RadQuality.MoonMinimumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L10RadQuality[i[0]].MoonMinimumCount); }},
{"radiometric_qlty.L10RadQuality.MoonMaximumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L10RadQuality[i[0]].MoonMaximumCount); }},
{"radiometric_qlty.L10RadQuality.FullImageMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].FullImageMeanCount); }},
{"radiometric_qlty.L10RadQuality.FullImageStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].FullImageStandardDeviation); }},
{"radiometric_qlty.L10RadQuality.EarthDiskMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].EarthDiskMeanCount); }},
{"radiometric_qlty.L10RadQuality.EarthDiskStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].EarthDiskStandardDeviation); }},
{"radiometric_qlty.L10RadQuality.MoonMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].MoonMeanCount); }},
{"radiometric_qlty.L10RadQuality.MoonStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].MoonStandardDeviation); }},
{"radiometric_qlty.L10RadQuality.SpaceMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].SpaceMeanCount); }},
{"radiometric_qlty.L10RadQuality.SpaceStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].SpaceStandardDeviation); }},
{"radiometric_qlty.L10RadQuality.SESpaceCornerMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].SESpaceCornerMeanCount); }},
{"radiometric_qlty.L10RadQuality.SESpaceCornerStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].SESpaceCornerStandardDeviation); }},
{"radiometric_qlty.L10RadQuality.SWSpaceCornerMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].SWSpaceCornerMeanCount); }},
{"radiometric_qlty.L10RadQuality.SWSpaceCornerStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].SWSpaceCornerStandardDeviation); }},
{"radiometric_qlty.L10RadQuality.NESpaceCornerMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].NESpaceCornerMeanCount); }},
{"radiometric_qlty.L10RadQuality.NESpaceCornerStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].NESpaceCornerStandardDeviation); }},
{"radiometric_qlty.L10RadQuality.NWSpaceCornerMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].NWSpaceCornerMeanCount); }},
{"radiometric_qlty.L10RadQuality.NWSpaceCornerStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].NWSpaceCornerStandardDeviation); }},
{"radiometric_qlty.L10RadQuality.FourSpaceCornersMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].FourSpaceCornersMeanCount); }},
{"radiometric_qlty.L10RadQuality.FourSpaceCornersStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].FourSpaceCornersStandardDeviation); }},
{"radiometric_qlty.L10RadQuality.FullImageIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L10RadQuality[i[0]].FullImageIstogram[i[1]]); }},
{"radiometric_qlty.L10RadQuality.EarthDiskIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L10RadQuality[i[0]].EarthDiskIstogram[i[1]]); }},
{"radiometric_qlty.L10RadQuality.ImageCentreSquareIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L10RadQuality[i[0]].ImageCentreSquareIstogram[i[1]]); }},
{"radiometric_qlty.L10RadQuality.SESpaceCornerIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L10RadQuality[i[0]].SESpaceCornerIstogram[i[1]]); }},
{"radiometric_qlty.L10RadQuality.SWSpaceCornerIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L10RadQuality[i[0]].SWSpaceCornerIstogram[i[1]]); }},
{"radiometric_qlty.L10RadQuality.NESpaceCornerIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L10RadQuality[i[0]].NESpaceCornerIstogram[i[1]]); }},
{"radiometric_qlty.L10RadQuality.NWSpaceCornerIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L10RadQuality[i[0]].NWSpaceCornerIstogram[i[1]]); }},
{"radiometric_qlty.L10RadQuality.FullImageEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].FullImageEntropy[i[1]]); }},
{"radiometric_qlty.L10RadQuality.EarthDiskEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].EarthDiskEntropy[i[1]]); }},
{"radiometric_qlty.L10RadQuality.ImageCentreSquareEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].ImageCentreSquareEntropy[i[1]]); }},
{"radiometric_qlty.L10RadQuality.SESpaceCornerEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].SESpaceCornerEntropy[i[1]]); }},
{"radiometric_qlty.L10RadQuality.SWSpaceCornerEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].SWSpaceCornerEntropy[i[1]]); }},
{"radiometric_qlty.L10RadQuality.NESpaceCornerEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].NESpaceCornerEntropy[i[1]]); }},
{"radiometric_qlty.L10RadQuality.NWSpaceCornerEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].NWSpaceCornerEntropy[i[1]]); }},
{"radiometric_qlty.L10RadQuality.FourSpaceCornersEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].FourSpaceCornersEntropy[i[1]]); }},
{"radiometric_qlty.L10RadQuality.ImageCentreSquarePSD_EW", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].ImageCentreSquarePSD_EW[i[1]]); }},
{"radiometric_qlty.L10RadQuality.FullImagePSD_EW", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].FullImagePSD_EW[i[1]]); }},
{"radiometric_qlty.L10RadQuality.ImageCentreSquarePSD_NS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].ImageCentreSquarePSD_NS[i[1]]); }},
{"radiometric_qlty.L10RadQuality.FullImagePSD_NS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L10RadQuality[i[0]].FullImagePSD_NS[i[1]]); }},
{"radiometric_qlty.L15RadQuality.FullImageMinimumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L15RadQuality[i[0]].FullImageMinimumCount); }},
{"radiometric_qlty.L15RadQuality.FullImageMaximumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L15RadQuality[i[0]].FullImageMaximumCount); }},
{"radiometric_qlty.L15RadQuality.EarthDiskMinimumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L15RadQuality[i[0]].EarthDiskMinimumCount); }},
{"radiometric_qlty.L15RadQuality.EarthDiskMaximumCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.radiometric_qlty.L15RadQuality[i[0]].EarthDiskMaximumCount); }},
{"radiometric_qlty.L15RadQuality.FullImageMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].FullImageMeanCount); }},
{"radiometric_qlty.L15RadQuality.FullImageStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].FullImageStandardDeviation); }},
{"radiometric_qlty.L15RadQuality.EarthDiskMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].EarthDiskMeanCount); }},
{"radiometric_qlty.L15RadQuality.EarthDiskStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].EarthDiskStandardDeviation); }},
{"radiometric_qlty.L15RadQuality.SpaceMeanCount", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].SpaceMeanCount); }},
{"radiometric_qlty.L15RadQuality.SpaceStandardDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].SpaceStandardDeviation); }},
{"radiometric_qlty.L15RadQuality.FullImageIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L15RadQuality[i[0]].FullImageIstogram[i[1]]); }},
{"radiometric_qlty.L15RadQuality.EarthDiskIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L15RadQuality[i[0]].EarthDiskIstogram[i[1]]); }},
{"radiometric_qlty.L15RadQuality.ImageCentreSquareIstogram", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u4(t.radiometric_qlty.L15RadQuality[i[0]].ImageCentreSquareIstogram[i[1]]); }},
{"radiometric_qlty.L15RadQuality.FullImageEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].FullImageEntropy[i[1]]); }},
{"radiometric_qlty.L15RadQuality.EarthDiskEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].EarthDiskEntropy[i[1]]); }},
{"radiometric_qlty.L15RadQuality.ImageCentreSquareEntropy", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].ImageCentreSquareEntropy[i[1]]); }},
{"radiometric_qlty.L15RadQuality.ImageCentreSquarePSD_EW", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].ImageCentreSquarePSD_EW[i[1]]); }},
{"radiometric_qlty.L15RadQuality.FullImagePSD_EW", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].FullImagePSD_EW[i[1]]); }},
{"radiometric_qlty.L15RadQuality.ImageCentreSquarePSD_NS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].ImageCentreSquarePSD_NS[i[1]]); }},
{"radiometric_qlty.L15RadQuality.FullImagePSD_NS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].FullImagePSD_NS[i[1]]); }},
{"radiometric_qlty.L15RadQuality.SESpaceCornerL15_RMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].SESpaceCornerL15_RMS); }},
{"radiometric_qlty.L15RadQuality.SESpaceCornerL15_Mean", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].SESpaceCornerL15_Mean); }},
{"radiometric_qlty.L15RadQuality.SWSpaceCornerL15_RMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].SWSpaceCornerL15_RMS); }},
{"radiometric_qlty.L15RadQuality.SWSpaceCornerL15_Mean", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].SWSpaceCornerL15_Mean); }},
{"radiometric_qlty.L15RadQuality.NESpaceCornerL15_RMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].NESpaceCornerL15_RMS); }},
{"radiometric_qlty.L15RadQuality.NESpaceCornerL15_Mean", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].NESpaceCornerL15_Mean); }},
{"radiometric_qlty.L15RadQuality.NWSpaceCornerL15_RMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].NWSpaceCornerL15_RMS); }},
{"radiometric_qlty.L15RadQuality.NWSpaceCornerL15_Mean", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.radiometric_qlty.L15RadQuality[i[0]].NWSpaceCornerL15_Mean); }},
{"geometric_qlty.AbsoluteAccuracy.QualityInfoValidity", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.AbsoluteAccuracy[i[0]].QualityInfoValidity); }},
{"geometric_qlty.AbsoluteAccuracy.EastWestAccuracyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].EastWestAccuracyRMS); }},
{"geometric_qlty.AbsoluteAccuracy.NorthSouthAccuracyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].NorthSouthAccuracyRMS); }},
{"geometric_qlty.AbsoluteAccuracy.MagnitudeRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].MagnitudeRMS); }},
{"geometric_qlty.AbsoluteAccuracy.EastWestUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].EastWestUncertaintyRMS); }},
{"geometric_qlty.AbsoluteAccuracy.NorthSouthUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].NorthSouthUncertaintyRMS); }},
{"geometric_qlty.AbsoluteAccuracy.MagnitudeUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].MagnitudeUncertaintyRMS); }},
{"geometric_qlty.AbsoluteAccuracy.EastWestMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].EastWestMaxDeviation); }},
{"geometric_qlty.AbsoluteAccuracy.NorthSouthMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].NorthSouthMaxDeviation); }},
{"geometric_qlty.AbsoluteAccuracy.MagnitudeMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].MagnitudeMaxDeviation); }},
{"geometric_qlty.AbsoluteAccuracy.EastWestUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].EastWestUncertaintyMax); }},
{"geometric_qlty.AbsoluteAccuracy.NorthSouthUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].NorthSouthUncertaintyMax); }},
{"geometric_qlty.AbsoluteAccuracy.MagnitudeUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.AbsoluteAccuracy[i[0]].MagnitudeUncertaintyMax); }},
{"geometric_qlty.RelativeAccuracy.QualityInfoValidity", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.RelativeAccuracy[i[0]].QualityInfoValidity); }},
{"geometric_qlty.RelativeAccuracy.EastWestAccuracyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].EastWestAccuracyRMS); }},
{"geometric_qlty.RelativeAccuracy.NorthSouthAccuracyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].NorthSouthAccuracyRMS); }},
{"geometric_qlty.RelativeAccuracy.MagnitudeRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].MagnitudeRMS); }},
{"geometric_qlty.RelativeAccuracy.EastWestUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].EastWestUncertaintyRMS); }},
{"geometric_qlty.RelativeAccuracy.NorthSouthUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].NorthSouthUncertaintyRMS); }},
{"geometric_qlty.RelativeAccuracy.MagnitudeUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].MagnitudeUncertaintyRMS); }},
{"geometric_qlty.RelativeAccuracy.EastWestMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].EastWestMaxDeviation); }},
{"geometric_qlty.RelativeAccuracy.NorthSouthMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].NorthSouthMaxDeviation); }},
{"geometric_qlty.RelativeAccuracy.MagnitudeMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].MagnitudeMaxDeviation); }},
{"geometric_qlty.RelativeAccuracy.EastWestUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].EastWestUncertaintyMax); }},
{"geometric_qlty.RelativeAccuracy.NorthSouthUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].NorthSouthUncertaintyMax); }},
{"geometric_qlty.RelativeAccuracy.MagnitudeUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.RelativeAccuracy[i[0]].MagnitudeUncertaintyMax); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.QualityInfoValidity", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].QualityInfoValidity); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.EastWestAccuracyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].EastWestAccuracyRMS); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.NorthSouthAccuracyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].NorthSouthAccuracyRMS); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.MagnitudeRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].MagnitudeRMS); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.EastWestUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].EastWestUncertaintyRMS); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.NorthSouthUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].NorthSouthUncertaintyRMS); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.MagnitudeUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].MagnitudeUncertaintyRMS); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.EastWestMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].EastWestMaxDeviation); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.NorthSouthMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].NorthSouthMaxDeviation); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.MagnitudeMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].MagnitudeMaxDeviation); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.EastWestUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].EastWestUncertaintyMax); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.NorthSouthUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].NorthSouthUncertaintyMax); }},
{"geometric_qlty.N500PixelsRelativeAccuracy.MagnitudeUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N500PixelsRelativeAccuracy[i[0]].MagnitudeUncertaintyMax); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.QualityInfoValidity", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].QualityInfoValidity); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.EastWestAccuracyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].EastWestAccuracyRMS); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.NorthSouthAccuracyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].NorthSouthAccuracyRMS); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.MagnitudeRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].MagnitudeRMS); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.EastWestUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].EastWestUncertaintyRMS); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.NorthSouthUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].NorthSouthUncertaintyRMS); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.MagnitudeUncertaintyRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].MagnitudeUncertaintyRMS); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.EastWestMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].EastWestMaxDeviation); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.NorthSouthMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].NorthSouthMaxDeviation); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.MagnitudeMaxDeviation", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].MagnitudeMaxDeviation); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.EastWestUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].EastWestUncertaintyMax); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.NorthSouthUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].NorthSouthUncertaintyMax); }},
{"geometric_qlty.N16PixelsRelativeAccuracy.MagnitudeUncertaintyMax", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.N16PixelsRelativeAccuracy[i[0]].MagnitudeUncertaintyMax); }},
{"geometric_qlty.MisregistrationResiduals.QualityInfoValidity", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.MisregistrationResiduals[i[0]].QualityInfoValidity); }},
{"geometric_qlty.MisregistrationResiduals.EastWestResiduals", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].EastWestResiduals); }},
{"geometric_qlty.MisregistrationResiduals.NorthSouthResiduals", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].NorthSouthResiduals); }},
{"geometric_qlty.MisregistrationResiduals.EastWestUncertainty", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].EastWestUncertainty); }},
{"geometric_qlty.MisregistrationResiduals.NorthSouthUncertainty", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].NorthSouthUncertainty); }},
{"geometric_qlty.MisregistrationResiduals.EastWestRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].EastWestRMS); }},
{"geometric_qlty.MisregistrationResiduals.NorthSouthRMS", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].NorthSouthRMS); }},
{"geometric_qlty.MisregistrationResiduals.EastWestMagnitude", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].EastWestMagnitude); }},
{"geometric_qlty.MisregistrationResiduals.NorthSouthMagnitude", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].NorthSouthMagnitude); }},
{"geometric_qlty.MisregistrationResiduals.EastWestMagnitudeUncertainty", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].EastWestMagnitudeUncertainty); }},
{"geometric_qlty.MisregistrationResiduals.NorthSouthMagnitudeUncertainty", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.geometric_qlty.MisregistrationResiduals[i[0]].NorthSouthMagnitudeUncertainty); }},
{"geometric_qlty.GeometricQualityStatus.QualityNominal", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.GeometricQualityStatus[i[0]].QualityNominal); }},
{"geometric_qlty.GeometricQualityStatus.NominalAbsolute", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.GeometricQualityStatus[i[0]].NominalAbsolute); }},
{"geometric_qlty.GeometricQualityStatus.NominalRelativeToPreviousImage", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.GeometricQualityStatus[i[0]].NominalRelativeToPreviousImage); }},
{"geometric_qlty.GeometricQualityStatus.NominalForREL500", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.GeometricQualityStatus[i[0]].NominalForREL500); }},
{"geometric_qlty.GeometricQualityStatus.NominalForREL16", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.GeometricQualityStatus[i[0]].NominalForREL16); }},
{"geometric_qlty.GeometricQualityStatus.NominalForResMisreg", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u1(t.geometric_qlty.GeometricQualityStatus[i[0]].NominalForResMisreg); }},
{"timelin_comple.Timeliness.MaxDelay", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.timelin_comple.Timeliness.MaxDelay); }},
{"timelin_comple.Timeliness.MinDelay", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.timelin_comple.Timeliness.MinDelay); }},
{"timelin_comple.Timeliness.MeanDelay", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_f4(t.timelin_comple.Timeliness.MeanDelay); }},
{"timelin_comple.Completeness.PlannedL15ImageLines", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.timelin_comple.Completeness[i[0]].PlannedL15ImageLines); }},
{"timelin_comple.Completeness.GeneratedL15ImageLines", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.timelin_comple.Completeness[i[0]].GeneratedL15ImageLines); }},
{"timelin_comple.Completeness.ValidL15ImageLines", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.timelin_comple.Completeness[i[0]].ValidL15ImageLines); }},
{"timelin_comple.Completeness.DummyL15ImageLines", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.timelin_comple.Completeness[i[0]].DummyL15ImageLines); }},
{"timelin_comple.Completeness.CorruptedL15ImageLines", [](const MSG_data_level_15_trailer& t, const std::vector<int>& i) -> json { return f_u2(t.timelin_comple.Completeness[i[0]].CorruptedL15ImageLines); }},
};
