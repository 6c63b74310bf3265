------------------------------ MODULE Layout -------------------------------
(* Where the fields of the level 1.5 header (prologue) and trailer (epilogue)
   are in the data field: the records of the MSG Level 1.5 Image Data Format
   Description, in their order, with their types.  A field is its name, its
   type and its dimensions; the place of everything follows from the order. *)
EXTENDS Integers, Sequences, FiniteSets

F(name, type, dims) == [name |-> name, type |-> type, dims |-> dims]

Fields(n) ==
  CASE
       n = "Prologue" -> <<
    F("sat_status", "SatelliteStatus", <<>>), F("image_acquisition", "ImageAcquisition", <<>>), F("celestial_events", "CelestialEvents", <<>>),
    F("image_description", "ImageDescription", <<>>), F("radiometric_proc", "RadiometricProc", <<>>), F("geometric_proc", "GeometricProc", <<>>) >>
  [] n = "NativeHeader" -> <<
    F("sat_status", "SatelliteStatus", <<>>), F("image_acquisition", "ImageAcquisition", <<>>), F("celestial_events", "CelestialEvents", <<>>),
    F("image_description", "ImageDescription", <<>>), F("radiometric_proc", "RadiometricProc", <<>>), F("geometric_proc", "GeometricProc", <<>>),
    F("IMPF_config", "IMPFConfiguration", <<>>) >>
  [] n = "PacketHeader" -> <<
    F("HeaderVersionNo", "u1", <<>>), F("PacketType", "u1", <<>>), F("SubHeaderType", "u1", <<>>), F("SourceFacilityId", "u1", <<>>),
    F("SourceEnvId", "u1", <<>>), F("SourceInstanceId", "u1", <<>>), F("SourceSUId", "u4", <<>>), F("SourceCPUId", "u1", <<4>>),
    F("DestFacilityId", "u1", <<>>), F("DestEnvId", "u1", <<>>), F("SequenceCount", "u2", <<>>), F("PacketLength", "u4", <<>>),
    F("SubHeaderVersionNo", "u1", <<>>), F("ChecksumFlag", "u1", <<>>), F("Acknowledgement", "u1", <<4>>), F("ServiceType", "u1", <<>>),
    F("ServiceSubtype", "u1", <<>>), F("PacketTime", "cds6", <<>>), F("SpacecraftId", "u2", <<>>) >>
  [] n = "LineHeader" -> <<
    F("LINE1_5Version", "u1", <<>>), F("SatelliteId", "u2", <<>>), F("TrueRepeatCycleStart", "cds10", <<>>), F("LineNumberInGrid", "u4", <<>>),
    F("ChannelId", "u1", <<>>), F("L10LineMeanAcquisitionTime", "cds6", <<>>), F("LineValidity", "u1", <<>>),
    F("LineRadiometricQuality", "u1", <<>>), F("LineGeometricQuality", "u1", <<>>) >>
  [] n = "SatelliteStatus" -> <<
    F("SatelliteDefinition", "SatelliteDefinition", <<>>), F("SatelliteOperations", "SatelliteOperations", <<>>), F("Orbit", "Orbit", <<>>),
    F("Attitude", "Attitude", <<>>), F("SpinRateatRCStart", "f8", <<>>), F("UTCCorrelation", "UTCCorrelation", <<>>) >>
  [] n = "SatelliteDefinition" -> <<
    F("SatelliteId", "u2", <<>>), F("NominalLongitude", "f4", <<>>), F("SatelliteStatus", "u1", <<>>) >>
  [] n = "SatelliteOperations" -> <<
    F("LastManoeuvreFlag", "b1", <<>>), F("LastManouvreStartTime", "cds6", <<>>), F("LastManouvreEndTime", "cds6", <<>>),
    F("LastManouvreType", "u1", <<>>), F("NextManoeuvreFlag", "b1", <<>>), F("NextManouvreStartTime", "cds6", <<>>),
    F("NextManouvreEndTime", "cds6", <<>>), F("NextManouvreType", "u1", <<>>) >>
  [] n = "Orbit" -> <<
    F("PeriodStartTime", "cds6", <<>>), F("PeriodEndTime", "cds6", <<>>), F("OrbitPoliniomal", "OrbitCoefficient", <<100>>) >>
  [] n = "OrbitCoefficient" -> <<
    F("StartTime", "cds6", <<>>), F("EndTime", "cds6", <<>>), F("X", "f8", <<8>>), F("Y", "f8", <<8>>), F("Z", "f8", <<8>>), F("VX", "f8", <<8>>),
    F("VY", "f8", <<8>>), F("VZ", "f8", <<8>>) >>
  [] n = "Attitude" -> <<
    F("PeriodStartTime", "cds6", <<>>), F("PeriodEndTime", "cds6", <<>>), F("PrincipalAxisOffsetAngle", "f8", <<>>),
    F("AttitudePolynomial", "AttitudeCoefficient", <<100>>) >>
  [] n = "AttitudeCoefficient" -> <<
    F("StartTime", "cds6", <<>>), F("EndTime", "cds6", <<>>), F("XOfSpinAxis", "f8", <<8>>), F("YOfSpinAxis", "f8", <<8>>),
    F("ZOfSpinAxis", "f8", <<8>>) >>
  [] n = "UTCCorrelation" -> <<
    F("PeriodStartTime", "cds6", <<>>), F("PeriodEndTime", "cds6", <<>>), F("OnBoardTimeStart", "cuc7", <<>>), F("VarOnBoardTimeStart", "f8", <<>>),
    F("A1", "f8", <<>>), F("VarA1", "f8", <<>>), F("A2", "f8", <<>>), F("VarA2", "f8", <<>>) >>
  [] n = "ImageAcquisition" -> <<
    F("PlannedAquisitionTime", "PlannedAquisitionTime", <<>>), F("RadiometerStatus", "RadiometerStatus", <<>>),
    F("RadiometerSettings", "RadiometerSettings", <<>>), F("RadiometerOperations", "RadiometerOperations", <<>>) >>
  [] n = "PlannedAquisitionTime" -> <<
    F("TrueRepeatCycleStart", "cds10", <<>>), F("PlannedForwardScanEnd", "cds10", <<>>), F("PlannedRepeatCycleEnd", "cds10", <<>>) >>
  [] n = "RadiometerStatus" -> <<
    F("ChannelStatus", "u1", <<12>>), F("DetectorStatus", "u1", <<42>>) >>
  [] n = "RadiometerSettings" -> <<
    F("MDUSamplingDelays", "u2", <<42>>), F("MDUNomHRVDelay1", "u2", <<>>), F("MDUNomHRVDelay2", "u2", <<>>), F("", "pad2", <<>>),
    F("MDUNomHRVBreakline", "u2", <<>>), F("DHSSyncSelection", "u1", <<>>), F("MDUOutGain", "u2", <<42>>), F("MDUCoarseGain", "u1", <<42>>),
    F("MDUFineGain", "u2", <<42>>), F("MDUNumericalOffset", "u2", <<42>>), F("PUGain", "u2", <<42>>), F("PUOffset", "u2", <<27>>),
    F("PUBias", "u2", <<15>>), F("L0_LineCounter", "u2", <<>>), F("K1_RetraceLines", "u2", <<>>), F("K2_PauseDeciseconds", "u2", <<>>),
    F("K3_RetraceLines", "u2", <<>>), F("K4_PauseDeciseconds", "u2", <<>>), F("K5_RetraceLines", "u2", <<>>),
    F("X_DeepSpaceWindowPosition", "u1", <<>>), F("RefocusingLines", "u2", <<>>), F("RefocusingDirection", "u1", <<>>),
    F("RefocusingPosition", "u2", <<>>), F("ScanRefPosFlag", "b1", <<>>), F("ScanRefPosNumber", "u2", <<>>), F("ScanRefPotVal", "f4", <<>>),
    F("ScanFirstLine", "u2", <<>>), F("ScanLastLine", "u2", <<>>), F("RetraceStartLine", "u2", <<>>) >>
  [] n = "RadiometerOperations" -> <<
    F("LastGainChangeFlag", "b1", <<>>), F("LastGainChangeTime", "cds6", <<>>), F("DecontaminationNow", "b1", <<>>),
    F("DecontaminationStart", "cds6", <<>>), F("DecontaminationEnd", "cds6", <<>>), F("BBCalScheduled", "b1", <<>>),
    F("BBCalibrationType", "u1", <<>>), F("BBFirstLine", "u2", <<>>), F("BBLastLine", "u2", <<>>), F("ColdFocalPlaneOpTemp", "u2", <<>>),
    F("WarmFocalPlaneOpTemp", "u2", <<>>) >>
  [] n = "CelestialEvents" -> <<
    F("CelestialBodiesPosition", "CelestialBodiesPosition", <<>>), F("RelationToImage", "RelationToImage", <<>>) >>
  [] n = "CelestialBodiesPosition" -> <<
    F("Ephemeris", "Ephemeris", <<>>) >>
  [] n = "Ephemeris" -> <<
    F("PeriodStartTime", "cds6", <<>>), F("PeriodEndTime", "cds6", <<>>), F("RelatedOrbitFileTime", "gt15", <<>>),
    F("RelatedAttitudeFileTime", "gt15", <<>>), F("EarthEphemeris", "BodyCoefficient", <<100>>), F("MoonEphemeris", "BodyCoefficient", <<100>>),
    F("SunEphemeris", "BodyCoefficient", <<100>>), F("StarEphemeris", "StarCoefficient", <<100, 20>>) >>
  [] n = "BodyCoefficient" -> <<
    F("StartTime", "cds6", <<>>), F("EndTime", "cds6", <<>>), F("AlphaCoef", "f8", <<8>>), F("BetaCoef", "f8", <<8>>) >>
  [] n = "StarCoefficient" -> <<
    F("StarId", "u2", <<>>), F("StartTime", "cds6", <<>>), F("EndTime", "cds6", <<>>), F("AlphaCoef", "f8", <<8>>), F("BetaCoef", "f8", <<8>>) >>
  [] n = "RelationToImage" -> <<
    F("TypeofEclypse", "u1", <<>>), F("EclipseStartTime", "cds6", <<>>), F("EclipseEndTime", "cds6", <<>>), F("VisibleBodiesInImage", "u1", <<>>),
    F("BodiesClosesttoFOV", "u1", <<>>), F("ImpactOnImageQuality", "u1", <<>>) >>
  [] n = "ImageDescription" -> <<
    F("ProjectionDescription", "ProjectionDescription", <<>>), F("ReferenceGridVIS_IR", "ReferenceGrid", <<>>),
    F("ReferenceGridHRV", "ReferenceGrid", <<>>), F("PlannedCoverageVIS_IR", "PlannedCoverageVIS_IR", <<>>),
    F("PlannedCoverageHRV", "PlannedCoverageHRV", <<>>), F("Level1_5ImageProduction", "Level1_5ImageProduction", <<>>) >>
  [] n = "ProjectionDescription" -> <<
    F("TypeOfProjection", "u1", <<>>), F("LongitudeOfSSP", "f4", <<>>) >>
  [] n = "ReferenceGrid" -> <<
    F("NumberofLines", "i4", <<>>), F("NumberofColumns", "i4", <<>>), F("LineDirGridStep", "f4", <<>>), F("ColumnDirGridStep", "f4", <<>>),
    F("GridOrigin", "u1", <<>>) >>
  [] n = "PlannedCoverageVIS_IR" -> <<
    F("SouthernLinePlanned", "i4", <<>>), F("NorthernLinePlanned", "i4", <<>>), F("EasternColumnPlanned", "i4", <<>>),
    F("WesternColumnPlanned", "i4", <<>>) >>
  [] n = "PlannedCoverageHRV" -> <<
    F("LowerSouthLinePlanned", "i4", <<>>), F("LowerNorthLinePlanned", "i4", <<>>), F("LowerEastColumnPlanned", "i4", <<>>),
    F("LowerWestColumnPlanned", "i4", <<>>), F("UpperSouthLinePlanned", "i4", <<>>), F("UpperNorthLinePlanned", "i4", <<>>),
    F("UpperEastColumnPlanned", "i4", <<>>), F("UpperWestColumnPlanned", "i4", <<>>) >>
  [] n = "Level1_5ImageProduction" -> <<
    F("ImageProcDirection", "u1", <<>>), F("PixelGenDirection", "u1", <<>>), F("PlannedChanProcessing", "b1", <<12>>) >>
  [] n = "RadiometricProc" -> <<
    F("RPSummary", "RPSummary", <<>>), F("ImageCalibration", "ImageCalibration", <<12>>), F("BlackBodyDataUsed", "BlackBodyDataUsed", <<>>),
    F("MPEFCalFeedback", "MPEFCalFeedback", <<>>), F("RadTransform", "f4", <<42, 64>>), F("RadProcMTFAdaptation", "MTFAdaptation", <<>>),
    F("StraylightCorrection", "f4", <<12, 8, 8>>) >>
  [] n = "RPSummary" -> <<
    F("RadianceLinearization", "b1", <<12>>), F("DetectorEqualization", "b1", <<12>>), F("OnboardCalibrationResult", "b1", <<12>>),
    F("MPEFCalFeedBack", "b1", <<12>>), F("MTFAdaptation", "b1", <<12>>), F("StraylightCorrectionFlag", "b1", <<12>>) >>
  [] n = "ImageCalibration" -> <<
    F("Cal_Slope", "f8", <<>>), F("Cal_Offset", "f8", <<>>) >>
  [] n = "BlackBodyDataUsed" -> <<
    F("BBObservationUTC", "cds10", <<>>), F("OnBoardBBTime", "cuc7", <<>>), F("MDUOutGain", "u2", <<42>>), F("MDUCoarseGain", "u1", <<42>>),
    F("MDUFineGain", "u2", <<42>>), F("MDUNumerical_Offset", "u2", <<42>>), F("PUGain", "u2", <<42>>), F("PUOffset", "u2", <<27>>),
    F("PUBias", "u2", <<15>>), F("DCRValues", "raw63", <<>>), F("XDeepSpaceWindowPosition", "u1", <<>>),
    F("FCUNominalColdFocalPlaneTemp", "u2", <<>>), F("FCURedundantColdFocalPlaneTemp", "u2", <<>>),
    F("FCUNominalWarmFocalPlaneVHROTemp", "u2", <<>>), F("FCURedundantWarmFocalPlaneVHROTemp", "u2", <<>>),
    F("FCUNominalScanMirrorSensor1Temp", "u2", <<>>), F("FCURedundantScanMirrorSensor1Temp", "u2", <<>>),
    F("FCUNominalScanMirrorSensor2Temp", "u2", <<>>), F("FCURedundantScanMirrorSensor2Temp", "u2", <<>>),
    F("FCUNominalM1MirrorSensor1Temp", "u2", <<>>), F("FCURedundantM1MirrorSensor1Temp", "u2", <<>>), F("FCUNominalM1MirrorSensor2Temp", "u2", <<>>),
    F("FCURedundantM1MirrorSensor2Temp", "u2", <<>>), F("FCUNominalM23AssemblySensor1Temp", "u1", <<>>),
    F("FCURedundantM23AssemblySensor1Temp", "u1", <<>>), F("FCUNominalM23AssemblySensor2Temp", "u1", <<>>),
    F("FCURedundantM23AssemblySensor2Temp", "u1", <<>>), F("FCUNominalM1BaffleTemp", "u2", <<>>), F("FCURedundantM1BaffleTemp", "u2", <<>>),
    F("FCUNominalBlackBodySensorTemp", "u2", <<>>), F("FCURedundantBlackBodySensorTemp", "u2", <<>>), F("FCUNominalSMMStatus", "raw2", <<>>),
    F("FCURedundantSMMStatus", "raw2", <<>>), F("ExtractedBBData", "ExtractedBBData", <<12>>) >>
  [] n = "ExtractedBBData" -> <<
    F("NumberOfPixelsUsed", "u4", <<>>), F("MeanCount", "f4", <<>>), F("RMS", "f4", <<>>), F("MaxCount", "u2", <<>>), F("MinCount", "u2", <<>>),
    F("BB_Processing_Slope", "f8", <<>>), F("BB_Processing_Offset", "f8", <<>>) >>
  [] n = "MPEFCalFeedback" -> <<
    F("IMPF_CAL_Data", "IMPF_CAL_Data", <<12>>) >>
  [] n = "IMPF_CAL_Data" -> <<
    F("ImageQualityFlag", "u1", <<>>), F("ReferenceDataFlag", "u1", <<>>), F("AbsCalMethod", "u1", <<>>), F("", "pad1", <<>>),
    F("AbsCalWeightVic", "f4", <<>>), F("AbsCalWeightXsat", "f4", <<>>), F("AbsCalCoeff", "f4", <<>>), F("AbsCalError", "f4", <<>>),
    F("CalMonBias", "f4", <<>>), F("CalMonRms", "f4", <<>>), F("OffsetCount", "f4", <<>>) >>
  [] n = "MTFAdaptation" -> <<
    F("VIS_IRMTFCorrectionE_W", "f4", <<33, 16>>), F("VIS_IRMTFCorrectionN_S", "f4", <<33, 16>>), F("HRVIRMTFCorrectionE_W", "f4", <<9, 16>>),
    F("HRVIRMTFCorrectionN_S", "f4", <<9, 16>>) >>
  [] n = "GeometricProc" -> <<
    F("OptAxisDistances", "OptAxisDistances", <<>>), F("EarthModel", "EarthModel", <<>>), F("AtmosphericModel", "f4", <<12, 360>>),
    F("ResamplingFunction", "u1", <<12>>) >>
  [] n = "OptAxisDistances" -> <<
    F("E_W_FocalPlane", "f4", <<42>>), F("N_S_FocalPlane", "f4", <<42>>) >>
  [] n = "EarthModel" -> <<
    F("TypeofEarthModel", "u1", <<>>), F("EquatorialRadius", "f8", <<>>), F("NorthPolarRadius", "f8", <<>>), F("SouthPolarRadius", "f8", <<>>) >>
  [] n = "IMPFConfiguration" -> <<
    F("GPConfigItemVersion", "ItemVersion", <<>>), F("SuDetails", "SUDetail", <<50>>), F("WarmStartParms", "WarmStartParms", <<>>) >>
  [] n = "ItemVersion" -> <<
    F("Issue", "u2", <<>>), F("Revision", "u2", <<>>) >>
  [] n = "SUDetail" -> <<
    F("SoftwareUnitId", "u4", <<>>), F("SUIdInstance", "u1", <<>>), F("SUMode", "u1", <<>>), F("SUState", "u1", <<>>),
    F("SUConfiguration", "SUConfiguration", <<>>) >>
  [] n = "SUConfiguration" -> <<
    F("SWVersion", "ItemVersion", <<>>), F("InfoBaseVersion", "ItemVersion", <<10>>) >>
  [] n = "WarmStartParms" -> <<
    F("ScanningLaw", "f8", <<1527>>), F("RadFramesAlignment", "f8", <<3>>), F("ScanningLawVariation", "f4", <<2>>),
    F("EqualisationParms", "EqualisationParms", <<42>>), F("BlackBodyDataWarmStart", "WarmStart", <<>>) >>
  [] n = "EqualisationParms" -> <<
    F("ConstCoef", "f4", <<>>), F("LinearCoef", "f4", <<>>), F("QuadraticCoef", "f4", <<>>) >>
  [] n = "WarmStart" -> <<
    F("GTotalForMethod1", "f8", <<12>>), F("GTotalForMethod2", "f8", <<12>>), F("GTotalForMethod3", "f8", <<12>>),
    F("GBackForMethod1", "f8", <<12>>), F("GBackForMethod2", "f8", <<12>>), F("GBackForMethod3", "f8", <<12>>),
    F("RatioGTotalToGBack", "f8", <<12>>), F("GainInFrontOpticsCont", "f8", <<12>>), F("CalibrationConstants", "f4", <<12>>),
    F("TimeOfColdObsSeconds", "f8", <<>>), F("TimeOfColdObsNanoSecs", "f8", <<>>), F("IncidentRadiance", "f8", <<12>>), F("TempCal", "f8", <<>>),
    F("TempM1", "f8", <<>>), F("TempScan", "f8", <<>>), F("TempM1Baf", "f8", <<>>), F("TempCalSurround", "f8", <<>>),
    F("MirrorParameters", "MirrorParameters", <<>>), F("LastSpinPeriod", "f8", <<>>), F("HKTMParameters", "HKTMParameters", <<>>) >>
  [] n = "MirrorParameters" -> <<
    F("MaxFeedbackVoltage", "f8", <<>>), F("MinFeedbackVoltage", "f8", <<>>), F("MirrorSlipEstimate", "f8", <<>>) >>
  [] n = "HKTMParameters" -> <<
    F("TimeS0Packet", "cds6", <<>>), F("TimeS1Packet", "cds6", <<>>), F("TimeS2Packet", "cds6", <<>>), F("TimeS3Packet", "cds6", <<>>),
    F("TimeS4Packet", "cds6", <<>>), F("TimeS5Packet", "cds6", <<>>), F("TimeS6Packet", "cds6", <<>>), F("TimeS7Packet", "cds6", <<>>),
    F("TimeS8Packet", "cds6", <<>>), F("TimeS9Packet", "cds6", <<>>), F("TimeSYPacket", "cds6", <<>>), F("TimePSPacket", "cds6", <<>>),
    F("", "pad3408", <<>>) >>
  [] n = "Epilogue" -> <<
    F("", "pad1", <<>>), F("product_stats", "ImageProdStats", <<>>), F("navig_result", "NavigExtrResult", <<>>),
    F("radiometric_qlty", "RadiometricQuality", <<>>), F("geometric_qlty", "GeometricQuality", <<>>), F("timelin_comple", "TimelinComple", <<>>) >>
  [] n = "ImageProdStats" -> <<
    F("SatelliteId", "u2", <<>>), F("ActualScanningSummary", "ActualScanningSummary", <<>>), F("RadiometerBehaviour", "RadiometerBehaviour", <<>>),
    F("ReceptionSummaryStats", "ReceptionSummaryStats", <<>>), F("L15ImageValidity", "L15ImageValidity", <<12>>),
    F("ActualL15CoverageVIS_IR", "ActualCoverageVIS_IR", <<>>), F("ActualL15CoverageHRV", "ActualCoverageHRV", <<>>) >>
  [] n = "ActualScanningSummary" -> <<
    F("NominalImageScanning", "u1", <<>>), F("ReducedScan", "u1", <<>>), F("ForwardScanStart", "cds6", <<>>), F("ForwardScanEnd", "cds6", <<>>) >>
  [] n = "RadiometerBehaviour" -> <<
    F("NominalBehaviour", "u1", <<>>), F("RadScanIrregularity", "u1", <<>>), F("RadStoppage", "u1", <<>>), F("RepeatCycleNotCompleted", "u1", <<>>),
    F("GainChangeTookPlace", "u1", <<>>), F("DecontaminationTookPlace", "u1", <<>>), F("NoBBCalibrationAchieved", "u1", <<>>),
    F("IncorrectTemperature", "u1", <<>>), F("InvalidBBData", "u1", <<>>), F("InvalidAuxOrHKTMData", "u1", <<>>),
    F("RefocusingMechanismActuated", "u1", <<>>), F("MirrorBackToReferencePos", "u1", <<>>) >>
  [] n = "ReceptionSummaryStats" -> <<
    F("PlannedNumberOfL10Lines", "u4", <<12>>), F("NumberOfMissingL10Lines", "u4", <<12>>), F("NumberOfCorruptedL10Lines", "u4", <<12>>),
    F("NumberOfReplacedL10Lines", "u4", <<12>>) >>
  [] n = "L15ImageValidity" -> <<
    F("NominalImage", "u1", <<>>), F("NonNominalBecauseIncomplete", "u1", <<>>), F("NonNominalRadiometricQuality", "u1", <<>>),
    F("NonNominalGeometricQuality", "u1", <<>>), F("NonNominalTimeliness", "u1", <<>>), F("IncompleteL15", "u1", <<>>) >>
  [] n = "ActualCoverageVIS_IR" -> <<
    F("SouthernLineActual", "i4", <<>>), F("NorthernLineActual", "i4", <<>>), F("EasternColumnActual", "i4", <<>>),
    F("WesternColumnActual", "i4", <<>>) >>
  [] n = "ActualCoverageHRV" -> <<
    F("LowerSouthLineActual", "i4", <<>>), F("LowerNorthLineActual", "i4", <<>>), F("LowerEastColumnActual", "i4", <<>>),
    F("LowerWestColumnActual", "i4", <<>>), F("UpperSouthLineActual", "i4", <<>>), F("UpperNorthLineActual", "i4", <<>>),
    F("UpperEastColumnActual", "i4", <<>>), F("UpperWestColumnActual", "i4", <<>>) >>
  [] n = "NavigExtrResult" -> <<
    F("ExtractedHorizons", "HorizonObservation", <<4>>), F("ExtractedStars", "StarObservation", <<20>>),
    F("ExtractedLandmarks", "LandmarkObservation", <<50>>) >>
  [] n = "HorizonObservation" -> <<
    F("HorizonId", "u1", <<>>), F("Alpha", "f8", <<>>), F("AlphaConfidence", "f8", <<>>), F("Beta", "f8", <<>>), F("BetaConfidence", "f8", <<>>),
    F("ObservationTime", "cds8", <<>>), F("SpinRate", "f8", <<>>), F("AlphaDeviation", "f8", <<>>), F("BetaDeviation", "f8", <<>>) >>
  [] n = "StarObservation" -> <<
    F("StarId", "u2", <<>>), F("Alpha", "f8", <<>>), F("AlphaConfidence", "f8", <<>>), F("Beta", "f8", <<>>), F("BetaConfidence", "f8", <<>>),
    F("ObservationTime", "cds8", <<>>), F("SpinRate", "f8", <<>>), F("AlphaDeviation", "f8", <<>>), F("BetaDeviation", "f8", <<>>) >>
  [] n = "LandmarkObservation" -> <<
    F("LandmarkId", "u2", <<>>), F("LandmarkLongitude", "f8", <<>>), F("LandmarkLatitude", "f8", <<>>), F("Alpha", "f8", <<>>),
    F("AlphaConfidence", "f8", <<>>), F("Beta", "f8", <<>>), F("BetaConfidence", "f8", <<>>), F("ObservationTime", "cds8", <<>>),
    F("SpinRate", "f8", <<>>), F("AlphaDeviation", "f8", <<>>), F("BetaDeviation", "f8", <<>>) >>
  [] n = "RadiometricQuality" -> <<
    F("L10RadQuality", "L10RadQuality", <<42>>), F("L15RadQuality", "L15RadQuality", <<12>>) >>
  [] n = "L10RadQuality" -> <<
    F("FullImageMinimumCount", "u2", <<>>), F("FullImageMaximumCount", "u2", <<>>), F("EarthDiskMinimumCount", "u2", <<>>),
    F("EarthDiskMaximumCount", "u2", <<>>), F("MoonMinimumCount", "u2", <<>>), F("MoonMaximumCount", "u2", <<>>),
    F("FullImageMeanCount", "f4", <<>>), F("FullImageStandardDeviation", "f4", <<>>), F("EarthDiskMeanCount", "f4", <<>>),
    F("EarthDiskStandardDeviation", "f4", <<>>), F("MoonMeanCount", "f4", <<>>), F("MoonStandardDeviation", "f4", <<>>),
    F("SpaceMeanCount", "f4", <<>>), F("SpaceStandardDeviation", "f4", <<>>), F("SESpaceCornerMeanCount", "f4", <<>>),
    F("SESpaceCornerStandardDeviation", "f4", <<>>), F("SWSpaceCornerMeanCount", "f4", <<>>), F("SWSpaceCornerStandardDeviation", "f4", <<>>),
    F("NESpaceCornerMeanCount", "f4", <<>>), F("NESpaceCornerStandardDeviation", "f4", <<>>), F("NWSpaceCornerMeanCount", "f4", <<>>),
    F("NWSpaceCornerStandardDeviation", "f4", <<>>), F("FourSpaceCornersMeanCount", "f4", <<>>), F("FourSpaceCornersStandardDeviation", "f4", <<>>),
    F("FullImageIstogram", "u4", <<256>>), F("EarthDiskIstogram", "u4", <<256>>), F("ImageCentreSquareIstogram", "u4", <<256>>),
    F("SESpaceCornerIstogram", "u4", <<128>>), F("SWSpaceCornerIstogram", "u4", <<128>>), F("NESpaceCornerIstogram", "u4", <<128>>),
    F("NWSpaceCornerIstogram", "u4", <<128>>), F("FullImageEntropy", "f4", <<3>>), F("EarthDiskEntropy", "f4", <<3>>),
    F("ImageCentreSquareEntropy", "f4", <<3>>), F("SESpaceCornerEntropy", "f4", <<3>>), F("SWSpaceCornerEntropy", "f4", <<3>>),
    F("NESpaceCornerEntropy", "f4", <<3>>), F("NWSpaceCornerEntropy", "f4", <<3>>), F("FourSpaceCornersEntropy", "f4", <<3>>),
    F("ImageCentreSquarePSD_EW", "f4", <<128>>), F("FullImagePSD_EW", "f4", <<128>>), F("ImageCentreSquarePSD_NS", "f4", <<128>>),
    F("FullImagePSD_NS", "f4", <<128>>) >>
  [] n = "L15RadQuality" -> <<
    F("FullImageMinimumCount", "u2", <<>>), F("FullImageMaximumCount", "u2", <<>>), F("EarthDiskMinimumCount", "u2", <<>>),
    F("EarthDiskMaximumCount", "u2", <<>>), F("FullImageMeanCount", "f4", <<>>), F("FullImageStandardDeviation", "f4", <<>>),
    F("EarthDiskMeanCount", "f4", <<>>), F("EarthDiskStandardDeviation", "f4", <<>>), F("SpaceMeanCount", "f4", <<>>),
    F("SpaceStandardDeviation", "f4", <<>>), F("FullImageIstogram", "u4", <<256>>), F("EarthDiskIstogram", "u4", <<256>>),
    F("ImageCentreSquareIstogram", "u4", <<256>>), F("FullImageEntropy", "f4", <<3>>), F("EarthDiskEntropy", "f4", <<3>>),
    F("ImageCentreSquareEntropy", "f4", <<3>>), F("ImageCentreSquarePSD_EW", "f4", <<128>>), F("FullImagePSD_EW", "f4", <<128>>),
    F("ImageCentreSquarePSD_NS", "f4", <<128>>), F("FullImagePSD_NS", "f4", <<128>>), F("SESpaceCornerL15_RMS", "f4", <<>>),
    F("SESpaceCornerL15_Mean", "f4", <<>>), F("SWSpaceCornerL15_RMS", "f4", <<>>), F("SWSpaceCornerL15_Mean", "f4", <<>>),
    F("NESpaceCornerL15_RMS", "f4", <<>>), F("NESpaceCornerL15_Mean", "f4", <<>>), F("NWSpaceCornerL15_RMS", "f4", <<>>),
    F("NWSpaceCornerL15_Mean", "f4", <<>>) >>
  [] n = "GeometricQuality" -> <<
    F("AbsoluteAccuracy", "Accuracy", <<12>>), F("RelativeAccuracy", "Accuracy", <<12>>), F("N500PixelsRelativeAccuracy", "Accuracy", <<12>>),
    F("N16PixelsRelativeAccuracy", "Accuracy", <<12>>), F("MisregistrationResiduals", "Residuals", <<12>>),
    F("GeometricQualityStatus", "GeometricQualityStatus", <<12>>) >>
  [] n = "Accuracy" -> <<
    F("QualityInfoValidity", "u1", <<>>), F("EastWestAccuracyRMS", "f4", <<>>), F("NorthSouthAccuracyRMS", "f4", <<>>),
    F("MagnitudeRMS", "f4", <<>>), F("EastWestUncertaintyRMS", "f4", <<>>), F("NorthSouthUncertaintyRMS", "f4", <<>>),
    F("MagnitudeUncertaintyRMS", "f4", <<>>), F("EastWestMaxDeviation", "f4", <<>>), F("NorthSouthMaxDeviation", "f4", <<>>),
    F("MagnitudeMaxDeviation", "f4", <<>>), F("EastWestUncertaintyMax", "f4", <<>>), F("NorthSouthUncertaintyMax", "f4", <<>>),
    F("MagnitudeUncertaintyMax", "f4", <<>>) >>
  [] n = "Residuals" -> <<
    F("QualityInfoValidity", "u1", <<>>), F("EastWestResiduals", "f4", <<>>), F("NorthSouthResiduals", "f4", <<>>),
    F("EastWestUncertainty", "f4", <<>>), F("NorthSouthUncertainty", "f4", <<>>), F("EastWestRMS", "f4", <<>>), F("NorthSouthRMS", "f4", <<>>),
    F("EastWestMagnitude", "f4", <<>>), F("NorthSouthMagnitude", "f4", <<>>), F("EastWestMagnitudeUncertainty", "f4", <<>>),
    F("NorthSouthMagnitudeUncertainty", "f4", <<>>) >>
  [] n = "GeometricQualityStatus" -> <<
    F("QualityNominal", "u1", <<>>), F("NominalAbsolute", "u1", <<>>), F("NominalRelativeToPreviousImage", "u1", <<>>),
    F("NominalForREL500", "u1", <<>>), F("NominalForREL16", "u1", <<>>), F("NominalForResMisreg", "u1", <<>>) >>
  [] n = "TimelinComple" -> <<
    F("Timeliness", "Timeliness", <<>>), F("Completeness", "Completeness", <<12>>) >>
  [] n = "Timeliness" -> <<
    F("MaxDelay", "f4", <<>>), F("MinDelay", "f4", <<>>), F("MeanDelay", "f4", <<>>) >>
  [] n = "Completeness" -> <<
    F("PlannedL15ImageLines", "u2", <<>>), F("GeneratedL15ImageLines", "u2", <<>>), F("ValidL15ImageLines", "u2", <<>>),
    F("DummyL15ImageLines", "u2", <<>>), F("CorruptedL15ImageLines", "u2", <<>>) >>

Records == {"Prologue", "NativeHeader", "PacketHeader", "LineHeader", "SatelliteStatus", "SatelliteDefinition", "SatelliteOperations", "Orbit", "OrbitCoefficient", "Attitude", "AttitudeCoefficient", "UTCCorrelation", "ImageAcquisition", "PlannedAquisitionTime", "RadiometerStatus", "RadiometerSettings", "RadiometerOperations", "CelestialEvents", "CelestialBodiesPosition", "Ephemeris", "BodyCoefficient", "StarCoefficient", "RelationToImage", "ImageDescription", "ProjectionDescription", "ReferenceGrid", "PlannedCoverageVIS_IR", "PlannedCoverageHRV", "Level1_5ImageProduction", "RadiometricProc", "RPSummary", "ImageCalibration", "BlackBodyDataUsed", "ExtractedBBData", "MPEFCalFeedback", "IMPF_CAL_Data", "MTFAdaptation", "GeometricProc", "OptAxisDistances", "EarthModel", "IMPFConfiguration", "ItemVersion", "SUDetail", "SUConfiguration", "WarmStartParms", "EqualisationParms", "WarmStart", "MirrorParameters", "HKTMParameters", "Epilogue", "ImageProdStats", "ActualScanningSummary", "RadiometerBehaviour", "ReceptionSummaryStats", "L15ImageValidity", "ActualCoverageVIS_IR", "ActualCoverageHRV", "NavigExtrResult", "HorizonObservation", "StarObservation", "LandmarkObservation", "RadiometricQuality", "L10RadQuality", "L15RadQuality", "GeometricQuality", "Accuracy", "Residuals", "GeometricQualityStatus", "TimelinComple", "Timeliness", "Completeness"}

BasicSize(t) ==
  CASE t \in {"u1", "b1", "pad1"} -> 1 [] t \in {"u2", "raw2", "pad2"} -> 2 [] t \in {"u4", "i4", "f4"} -> 4 [] t = "f8" -> 8
    [] t = "cds6" -> 6 [] t = "cds8" -> 8 [] t = "cds10" -> 10 [] t = "cuc7" -> 7 [] t = "gt15" -> 15 [] t = "raw63" -> 63 [] t = "pad3408" -> 3408

RECURSIVE Times(_), SizeOfType(_), SizeOfFields(_)
Times(d) == IF d = <<>> THEN 1 ELSE Head(d) * Times(Tail(d))
SizeOfFields(fs) == IF fs = <<>> THEN 0 ELSE Times(Head(fs).dims) * SizeOfType(Head(fs).type) + SizeOfFields(Tail(fs))
SizeOfType(t) == IF t \in Records THEN SizeOfFields(Fields(t)) ELSE BasicSize(t)

FieldNo(n, name) == CHOOSE k \in DOMAIN Fields(n) : Fields(n)[k].name = name
\* row-major place of an element
RECURSIVE Flat(_, _)
Flat(dims, idx) == IF dims = <<>> THEN 0 ELSE Head(idx) * Times(Tail(dims)) + Flat(Tail(dims), Tail(idx))
\* a path: a sequence of steps [f |-> field name, i |-> its indices]
StepOffset(n, st) ==
  LET k == FieldNo(n, st.f) f == Fields(n)[k] IN SizeOfFields(SubSeq(Fields(n), 1, k - 1)) + Flat(f.dims, st.i) * SizeOfType(f.type)
RECURSIVE Offset(_, _), TypeAt(_, _)
Offset(n, path) == IF path = <<>> THEN 0
                   ELSE StepOffset(n, Head(path)) + Offset(Fields(n)[FieldNo(n, Head(path).f)].type, Tail(path))
TypeAt(n, path) == LET t == Fields(n)[FieldNo(n, Head(path).f)].type IN IF Len(path) = 1 THEN t ELSE TypeAt(t, Tail(path))

\* the sizes of the format description
ASSUME SizeOfType("SatelliteStatus") = 60134 /\ SizeOfType("ImageAcquisition") = 700 /\ SizeOfType("CelestialEvents") = 326058
ASSUME SizeOfType("ImageDescription") = 101 /\ SizeOfType("RadiometricProc") = 20815 /\ SizeOfType("GeometricProc") = 17653
ASSUME SizeOfType("IMPFConfiguration") = 19786
ASSUME SizeOfType("PacketHeader") = 38 /\ SizeOfType("LineHeader") = 27 /\ SizeOfType("NativeHeader") = 445247
ASSUME SizeOfType("ImageProdStats") = 340 /\ SizeOfType("NavigExtrResult") = 5680 /\ SizeOfType("RadiometricQuality") = 371256
ASSUME SizeOfType("GeometricQuality") = 2916 /\ SizeOfType("TimelinComple") = 132
=============================================================================
