//! Every variant of the frozen catalogue.
use file_format::FileFormat as F;

pub const VARIANTS: [(&str, F); 447] = [
    ("Abiword", F::Abiword),
    ("AbiwordTemplate", F::AbiwordTemplate),
    ("Ace", F::Ace),
    ("ActionsMediaVideo", F::ActionsMediaVideo),
    ("Activemime", F::Activemime),
    ("AdaptableScalableTextureCompression", F::AdaptableScalableTextureCompression),
    ("AdaptiveMultiRate", F::AdaptiveMultiRate),
    ("AdditiveManufacturingFormat", F::AdditiveManufacturingFormat),
    ("AdobeIllustratorArtwork", F::AdobeIllustratorArtwork),
    ("AdobeIndesignDocument", F::AdobeIndesignDocument),
    ("AdobeIntegratedRuntime", F::AdobeIntegratedRuntime),
    ("AdobePhotoshopDocument", F::AdobePhotoshopDocument),
    ("AdvancedAudioCoding", F::AdvancedAudioCoding),
    ("AdvancedStreamRedirector", F::AdvancedStreamRedirector),
    ("AdvancedSystemsFormat", F::AdvancedSystemsFormat),
    ("AgeEncryption", F::AgeEncryption),
    ("Alz", F::Alz),
    ("AmigaDiskFile", F::AmigaDiskFile),
    ("AndroidAppBundle", F::AndroidAppBundle),
    ("AndroidBinaryXml", F::AndroidBinaryXml),
    ("AndroidPackage", F::AndroidPackage),
    ("AndroidResourceStorageContainer", F::AndroidResourceStorageContainer),
    ("AnimatedPortableNetworkGraphics", F::AnimatedPortableNetworkGraphics),
    ("ApacheArrowColumnar", F::ApacheArrowColumnar),
    ("ApacheAvro", F::ApacheAvro),
    ("ApacheParquet", F::ApacheParquet),
    ("Appimage", F::Appimage),
    ("AppleDiskImage", F::AppleDiskImage),
    ("AppleIconImage", F::AppleIconImage),
    ("AppleItunesAudio", F::AppleItunesAudio),
    ("AppleItunesAudiobook", F::AppleItunesAudiobook),
    ("AppleItunesProtectedAudio", F::AppleItunesProtectedAudio),
    ("AppleItunesVideo", F::AppleItunesVideo),
    ("AppleQuicktime", F::AppleQuicktime),
    ("ArbitraryBinaryData", F::ArbitraryBinaryData),
    ("ArchivedByRobertJung", F::ArchivedByRobertJung),
    ("Atari7800Rom", F::Atari7800Rom),
    ("Atom", F::Atom),
    ("Au", F::Au),
    ("AudioCodec3", F::AudioCodec3),
    ("AudioInterchangeFileFormat", F::AudioInterchangeFileFormat),
    ("AudioVideoInterleave", F::AudioVideoInterleave),
    ("AudioVisualResearch", F::AudioVisualResearch),
    ("AutocadDrawing", F::AutocadDrawing),
    ("Autodesk123d", F::Autodesk123d),
    ("AutodeskAlias", F::AutodeskAlias),
    ("AutodeskAnimator", F::AutodeskAnimator),
    ("AutodeskAnimatorPro", F::AutodeskAnimatorPro),
    ("AutodeskInventorAssembly", F::AutodeskInventorAssembly),
    ("AutodeskInventorDrawing", F::AutodeskInventorDrawing),
    ("AutodeskInventorPart", F::AutodeskInventorPart),
    ("AutodeskInventorPresentation", F::AutodeskInventorPresentation),
    ("Av1ImageFileFormat", F::Av1ImageFileFormat),
    ("Av1ImageFileFormatSequence", F::Av1ImageFileFormatSequence),
    ("BdavMpeg2TransportStream", F::BdavMpeg2TransportStream),
    ("BetterPortableGraphics", F::BetterPortableGraphics),
    ("Bittorrent", F::Bittorrent),
    ("Blender", F::Blender),
    ("BmfontAscii", F::BmfontAscii),
    ("BmfontBinary", F::BmfontBinary),
    ("BroadBandEbook", F::BroadBandEbook),
    ("Bzip", F::Bzip),
    ("Bzip2", F::Bzip2),
    ("Bzip3", F::Bzip3),
    ("Cabinet", F::Cabinet),
    ("CanonRaw", F::CanonRaw),
    ("CanonRaw2", F::CanonRaw2),
    ("CanonRaw3", F::CanonRaw3),
    ("CdAudio", F::CdAudio),
    ("Cinema4d", F::Cinema4d),
    ("Cineon", F::Cineon),
    ("CircuitDiagramDocument", F::CircuitDiagramDocument),
    ("ClojureScript", F::ClojureScript),
    ("CollaborativeDesignActivity", F::CollaborativeDesignActivity),
    ("Commodore64Cartridge", F::Commodore64Cartridge),
    ("Commodore64Program", F::Commodore64Program),
    ("CommonObjectFileFormat", F::CommonObjectFileFormat),
    ("CompoundFileBinary", F::CompoundFileBinary),
    ("CorelPresentations", F::CorelPresentations),
    ("CorelPresentations7", F::CorelPresentations7),
    ("Cpio", F::Cpio),
    ("CreativeVoice", F::CreativeVoice),
    ("DalvikExecutable", F::DalvikExecutable),
    ("DebianPackage", F::DebianPackage),
    ("DerCertificate", F::DerCertificate),
    ("DesignWebFormat", F::DesignWebFormat),
    ("DesignWebFormatXps", F::DesignWebFormatXps),
    ("DigitalImagingAndCommunicationsInMedicine", F::DigitalImagingAndCommunicationsInMedicine),
    ("DigitalPictureExchange", F::DigitalPictureExchange),
    ("Djvu", F::Djvu),
    ("DrawingExchangeFormatAscii", F::DrawingExchangeFormatAscii),
    ("DrawingExchangeFormatBinary", F::DrawingExchangeFormatBinary),
    ("Drawio", F::Drawio),
    ("DynamicLinkLibrary", F::DynamicLinkLibrary),
    ("EightBitSampledVoice", F::EightBitSampledVoice),
    ("ElectronicPublication", F::ElectronicPublication),
    ("EmbeddedOpentype", F::EmbeddedOpentype),
    ("Empty", F::Empty),
    ("EncapsulatedPostscript", F::EncapsulatedPostscript),
    ("EnhancedMetafile", F::EnhancedMetafile),
    ("EnterpriseApplicationArchive", F::EnterpriseApplicationArchive),
    ("ExecutableAndLinkableFormat", F::ExecutableAndLinkableFormat),
    ("ExperimentalComputingFacility", F::ExperimentalComputingFacility),
    ("Extensible3d", F::Extensible3d),
    ("ExtensibleArchive", F::ExtensibleArchive),
    ("ExtensibleBinaryMetaLanguage", F::ExtensibleBinaryMetaLanguage),
    ("ExtensibleMarkupLanguage", F::ExtensibleMarkupLanguage),
    ("ExtensibleStylesheetLanguageTransformations", F::ExtensibleStylesheetLanguageTransformations),
    ("Farbfeld", F::Farbfeld),
    ("Fasttracker2ExtendedModule", F::Fasttracker2ExtendedModule),
    ("Fictionbook", F::Fictionbook),
    ("FictionbookZip", F::FictionbookZip),
    ("FigletFont", F::FigletFont),
    ("FigmaDesign", F::FigmaDesign),
    ("Filmbox", F::Filmbox),
    ("FlashCs5Project", F::FlashCs5Project),
    ("FlashMp4Audio", F::FlashMp4Audio),
    ("FlashMp4Audiobook", F::FlashMp4Audiobook),
    ("FlashMp4ProtectedVideo", F::FlashMp4ProtectedVideo),
    ("FlashMp4Video", F::FlashMp4Video),
    ("FlashProject", F::FlashProject),
    ("FlashVideo", F::FlashVideo),
    ("FlexibleAndInteroperableDataTransfer", F::FlexibleAndInteroperableDataTransfer),
    ("FlexibleImageTransportSystem", F::FlexibleImageTransportSystem),
    ("FreeLosslessAudioCodec", F::FreeLosslessAudioCodec),
    ("FreeLosslessImageFormat", F::FreeLosslessImageFormat),
    ("FujifilmRaw", F::FujifilmRaw),
    ("Fusion360", F::Fusion360),
    ("GameBoyAdvanceRom", F::GameBoyAdvanceRom),
    ("GameBoyColorRom", F::GameBoyColorRom),
    ("GameBoyRom", F::GameBoyRom),
    ("GameGearRom", F::GameGearRom),
    ("GeographyMarkupLanguage", F::GeographyMarkupLanguage),
    ("GettextMachineObject", F::GettextMachineObject),
    ("GlTransmissionFormatBinary", F::GlTransmissionFormatBinary),
    ("Glyphs", F::Glyphs),
    ("GoogleChromeExtension", F::GoogleChromeExtension),
    ("GoogleDraco", F::GoogleDraco),
    ("GpsExchangeFormat", F::GpsExchangeFormat),
    ("GraphicsInterchangeFormat", F::GraphicsInterchangeFormat),
    ("Gzip", F::Gzip),
    ("HighEfficiencyImageCoding", F::HighEfficiencyImageCoding),
    ("HighEfficiencyImageCodingSequence", F::HighEfficiencyImageCodingSequence),
    ("HighEfficiencyImageFileFormat", F::HighEfficiencyImageFileFormat),
    ("HighEfficiencyImageFileFormatSequence", F::HighEfficiencyImageFileFormatSequence),
    ("HypertextMarkupLanguage", F::HypertextMarkupLanguage),
    ("Icalendar", F::Icalendar),
    ("IccProfile", F::IccProfile),
    ("Id3v2", F::Id3v2),
    ("ImpulseTrackerModule", F::ImpulseTrackerModule),
    ("IndesignMarkupLanguage", F::IndesignMarkupLanguage),
    ("InitialGraphicsExchangeSpecification", F::InitialGraphicsExchangeSpecification),
    ("InterQuakeExport", F::InterQuakeExport),
    ("InterQuakeModel", F::InterQuakeModel),
    ("IosAppStorePackage", F::IosAppStorePackage),
    ("Iso9660", F::Iso9660),
    ("JavaArchive", F::JavaArchive),
    ("JavaClass", F::JavaClass),
    ("JavaKeystore", F::JavaKeystore),
    ("JointPhotographicExpertsGroup", F::JointPhotographicExpertsGroup),
    ("Jpeg2000Codestream", F::Jpeg2000Codestream),
    ("Jpeg2000Part1", F::Jpeg2000Part1),
    ("Jpeg2000Part2", F::Jpeg2000Part2),
    ("Jpeg2000Part3", F::Jpeg2000Part3),
    ("Jpeg2000Part6", F::Jpeg2000Part6),
    ("JpegExtendedRange", F::JpegExtendedRange),
    ("JpegLs", F::JpegLs),
    ("JpegNetworkGraphics", F::JpegNetworkGraphics),
    ("JpegXl", F::JpegXl),
    ("JsonFeed", F::JsonFeed),
    ("KeyholeMarkupLanguage", F::KeyholeMarkupLanguage),
    ("KeyholeMarkupLanguageZip", F::KeyholeMarkupLanguageZip),
    ("KhronosTexture", F::KhronosTexture),
    ("KhronosTexture2", F::KhronosTexture2),
    ("Larc", F::Larc),
    ("Latex", F::Latex),
    ("LempelZivFiniteStateEntropy", F::LempelZivFiniteStateEntropy),
    ("LempelZivMarkovChainAlgorithm", F::LempelZivMarkovChainAlgorithm),
    ("Lha", F::Lha),
    ("LinearExecutable", F::LinearExecutable),
    ("LlvmBitcode", F::LlvmBitcode),
    ("LongRangeZip", F::LongRangeZip),
    ("LuaBytecode", F::LuaBytecode),
    ("LuaScript", F::LuaScript),
    ("Lz4", F::Lz4),
    ("Lzip", F::Lzip),
    ("Lzop", F::Lzop),
    ("MachO", F::MachO),
    ("MacosAlias", F::MacosAlias),
    ("Magicavoxel", F::Magicavoxel),
    ("MagickImageFileFormat", F::MagickImageFileFormat),
    ("MaterialExchangeFormat", F::MaterialExchangeFormat),
    ("MathematicalMarkupLanguage", F::MathematicalMarkupLanguage),
    ("Matroska3dVideo", F::Matroska3dVideo),
    ("MatroskaAudio", F::MatroskaAudio),
    ("MatroskaSubtitles", F::MatroskaSubtitles),
    ("MatroskaVideo", F::MatroskaVideo),
    ("MayaAscii", F::MayaAscii),
    ("MayaBinary", F::MayaBinary),
    ("MegaDriveRom", F::MegaDriveRom),
    ("MetaInformationEncapsulation", F::MetaInformationEncapsulation),
    ("MicrosoftAccess2007Database", F::MicrosoftAccess2007Database),
    ("MicrosoftAccessDatabase", F::MicrosoftAccessDatabase),
    ("MicrosoftCompiledHtmlHelp", F::MicrosoftCompiledHtmlHelp),
    ("MicrosoftDigitalVideoRecording", F::MicrosoftDigitalVideoRecording),
    ("MicrosoftDirectdrawSurface", F::MicrosoftDirectdrawSurface),
    ("MicrosoftExcelSpreadsheet", F::MicrosoftExcelSpreadsheet),
    ("MicrosoftPowerpointPresentation", F::MicrosoftPowerpointPresentation),
    ("MicrosoftProjectPlan", F::MicrosoftProjectPlan),
    ("MicrosoftPublisherDocument", F::MicrosoftPublisherDocument),
    ("MicrosoftReader", F::MicrosoftReader),
    ("MicrosoftSoftwareInstaller", F::MicrosoftSoftwareInstaller),
    ("MicrosoftVirtualHardDisk", F::MicrosoftVirtualHardDisk),
    ("MicrosoftVirtualHardDisk2", F::MicrosoftVirtualHardDisk2),
    ("MicrosoftVisioDrawing", F::MicrosoftVisioDrawing),
    ("MicrosoftVisualStudioExtension", F::MicrosoftVisualStudioExtension),
    ("MicrosoftVisualStudioSolution", F::MicrosoftVisualStudioSolution),
    ("MicrosoftWordDocument", F::MicrosoftWordDocument),
    ("MicrosoftWorks6Spreadsheet", F::MicrosoftWorks6Spreadsheet),
    ("MicrosoftWorksDatabase", F::MicrosoftWorksDatabase),
    ("MicrosoftWorksSpreadsheet", F::MicrosoftWorksSpreadsheet),
    ("MicrosoftWorksWordProcessor", F::MicrosoftWorksWordProcessor),
    ("MicrosoftWrite", F::MicrosoftWrite),
    ("Mobipocket", F::Mobipocket),
    ("Model3dAscii", F::Model3dAscii),
    ("Model3dBinary", F::Model3dBinary),
    ("MonkeysAudio", F::MonkeysAudio),
    ("MozillaArchive", F::MozillaArchive),
    ("Mp3Url", F::Mp3Url),
    ("Mpeg12AudioLayer2", F::Mpeg12AudioLayer2),
    ("Mpeg12AudioLayer3", F::Mpeg12AudioLayer3),
    ("Mpeg12Video", F::Mpeg12Video),
    ("Mpeg2TransportStream", F::Mpeg2TransportStream),
    ("Mpeg4Part14", F::Mpeg4Part14),
    ("Mpeg4Part14Audio", F::Mpeg4Part14Audio),
    ("Mpeg4Part14Subtitles", F::Mpeg4Part14Subtitles),
    ("Mpeg4Part14Video", F::Mpeg4Part14Video),
    ("MpegDashMpd", F::MpegDashMpd),
    ("MsDosBatch", F::MsDosBatch),
    ("MsDosExecutable", F::MsDosExecutable),
    ("Mtv", F::Mtv),
    ("MultiLayerArchive", F::MultiLayerArchive),
    ("MultipleImageNetworkGraphics", F::MultipleImageNetworkGraphics),
    ("Musepack", F::Musepack),
    ("MusicalInstrumentDigitalInterface", F::MusicalInstrumentDigitalInterface),
    ("Musicxml", F::Musicxml),
    ("MusicxmlZip", F::MusicxmlZip),
    ("NeoGeoPocketColorRom", F::NeoGeoPocketColorRom),
    ("NeoGeoPocketRom", F::NeoGeoPocketRom),
    ("NewExecutable", F::NewExecutable),
    ("NikonElectronicFile", F::NikonElectronicFile),
    ("Nintendo64Rom", F::Nintendo64Rom),
    ("NintendoDsRom", F::NintendoDsRom),
    ("NintendoEntertainmentSystemRom", F::NintendoEntertainmentSystemRom),
    ("NintendoSwitchExecutable", F::NintendoSwitchExecutable),
    ("NintendoSwitchPackage", F::NintendoSwitchPackage),
    ("NintendoSwitchRom", F::NintendoSwitchRom),
    ("OfficeOpenXmlDocument", F::OfficeOpenXmlDocument),
    ("OfficeOpenXmlDrawing", F::OfficeOpenXmlDrawing),
    ("OfficeOpenXmlPresentation", F::OfficeOpenXmlPresentation),
    ("OfficeOpenXmlSpreadsheet", F::OfficeOpenXmlSpreadsheet),
    ("OggFlac", F::OggFlac),
    ("OggMedia", F::OggMedia),
    ("OggMultiplexedMedia", F::OggMultiplexedMedia),
    ("OggOpus", F::OggOpus),
    ("OggSpeex", F::OggSpeex),
    ("OggTheora", F::OggTheora),
    ("OggVorbis", F::OggVorbis),
    ("OlympusRawFormat", F::OlympusRawFormat),
    ("OpendocumentDatabase", F::OpendocumentDatabase),
    ("OpendocumentFormula", F::OpendocumentFormula),
    ("OpendocumentFormulaTemplate", F::OpendocumentFormulaTemplate),
    ("OpendocumentGraphics", F::OpendocumentGraphics),
    ("OpendocumentGraphicsTemplate", F::OpendocumentGraphicsTemplate),
    ("OpendocumentPresentation", F::OpendocumentPresentation),
    ("OpendocumentPresentationTemplate", F::OpendocumentPresentationTemplate),
    ("OpendocumentSpreadsheet", F::OpendocumentSpreadsheet),
    ("OpendocumentSpreadsheetTemplate", F::OpendocumentSpreadsheetTemplate),
    ("OpendocumentText", F::OpendocumentText),
    ("OpendocumentTextMaster", F::OpendocumentTextMaster),
    ("OpendocumentTextMasterTemplate", F::OpendocumentTextMasterTemplate),
    ("OpendocumentTextTemplate", F::OpendocumentTextTemplate),
    ("Openexr", F::Openexr),
    ("Opennurbs", F::Opennurbs),
    ("Openraster", F::Openraster),
    ("Opentype", F::Opentype),
    ("Openxps", F::Openxps),
    ("OptimizedDalvikExecutable", F::OptimizedDalvikExecutable),
    ("PanasonicRaw", F::PanasonicRaw),
    ("PcapDump", F::PcapDump),
    ("PcapNextGenerationDump", F::PcapNextGenerationDump),
    ("PemCertificate", F::PemCertificate),
    ("PemCertificateSigningRequest", F::PemCertificateSigningRequest),
    ("PemPrivateKey", F::PemPrivateKey),
    ("PemPublicKey", F::PemPublicKey),
    ("PerlScript", F::PerlScript),
    ("PersonalStorageTable", F::PersonalStorageTable),
    ("PgpMessage", F::PgpMessage),
    ("PgpPrivateKeyBlock", F::PgpPrivateKeyBlock),
    ("PgpPublicKeyBlock", F::PgpPublicKeyBlock),
    ("PgpSignature", F::PgpSignature),
    ("PgpSignedMessage", F::PgpSignedMessage),
    ("PictureExchange", F::PictureExchange),
    ("PlainText", F::PlainText),
    ("Pmarc", F::Pmarc),
    ("PolygonAscii", F::PolygonAscii),
    ("PolygonBinary", F::PolygonBinary),
    ("PortableArbitraryMap", F::PortableArbitraryMap),
    ("PortableBitmap", F::PortableBitmap),
    ("PortableDocumentFormat", F::PortableDocumentFormat),
    ("PortableExecutable", F::PortableExecutable),
    ("PortableFloatmap", F::PortableFloatmap),
    ("PortableGraymap", F::PortableGraymap),
    ("PortableNetworkGraphics", F::PortableNetworkGraphics),
    ("PortablePixmap", F::PortablePixmap),
    ("Postscript", F::Postscript),
    ("PythonScript", F::PythonScript),
    ("QemuCopyOnWrite", F::QemuCopyOnWrite),
    ("QualcommPurevoice", F::QualcommPurevoice),
    ("QuiteOkAudio", F::QuiteOkAudio),
    ("QuiteOkImage", F::QuiteOkImage),
    ("RadianceHdr", F::RadianceHdr),
    ("Realaudio", F::Realaudio),
    ("ReallySimpleSyndication", F::ReallySimpleSyndication),
    ("Realmedia", F::Realmedia),
    ("Realvideo", F::Realvideo),
    ("RedHatPackageManager", F::RedHatPackageManager),
    ("RichTextFormat", F::RichTextFormat),
    ("RoshalArchive", F::RoshalArchive),
    ("RubyScript", F::RubyScript),
    ("Rzip", F::Rzip),
    ("ScalableVectorGraphics", F::ScalableVectorGraphics),
    ("ScreamTracker3Module", F::ScreamTracker3Module),
    ("SegaMasterSystemRom", F::SegaMasterSystemRom),
    ("Seqbox", F::Seqbox),
    ("SevenZip", F::SevenZip),
    ("Shapefile", F::Shapefile),
    ("ShellScript", F::ShellScript),
    ("ShoutcastPlaylist", F::ShoutcastPlaylist),
    ("SiliconGraphicsImage", F::SiliconGraphicsImage),
    ("SiliconGraphicsMovie", F::SiliconGraphicsMovie),
    ("SimpleObjectAccessProtocol", F::SimpleObjectAccessProtocol),
    ("Sketch", F::Sketch),
    ("Sketch43", F::Sketch43),
    ("Sketchup", F::Sketchup),
    ("SmallWebFormat", F::SmallWebFormat),
    ("Snappy", F::Snappy),
    ("SolidworksAssembly", F::SolidworksAssembly),
    ("SolidworksDrawing", F::SolidworksDrawing),
    ("SolidworksPart", F::SolidworksPart),
    ("SonyDsdStreamFile", F::SonyDsdStreamFile),
    ("SonyMovie", F::SonyMovie),
    ("Soundfont2", F::Soundfont2),
    ("SpaceclaimDocument", F::SpaceclaimDocument),
    ("Sqlite3", F::Sqlite3),
    ("Squashfs", F::Squashfs),
    ("StandardForTheExchangeOfProductModelData", F::StandardForTheExchangeOfProductModelData),
    ("Starcalc", F::Starcalc),
    ("Starchart", F::Starchart),
    ("Stardraw", F::Stardraw),
    ("Starimpress", F::Starimpress),
    ("Starmath", F::Starmath),
    ("Starwriter", F::Starwriter),
    ("StereolithographyAscii", F::StereolithographyAscii),
    ("Stuffit", F::Stuffit),
    ("StuffitX", F::StuffitX),
    ("SubripText", F::SubripText),
    ("SunXmlCalc", F::SunXmlCalc),
    ("SunXmlCalcTemplate", F::SunXmlCalcTemplate),
    ("SunXmlDraw", F::SunXmlDraw),
    ("SunXmlDrawTemplate", F::SunXmlDrawTemplate),
    ("SunXmlImpress", F::SunXmlImpress),
    ("SunXmlImpressTemplate", F::SunXmlImpressTemplate),
    ("SunXmlMath", F::SunXmlMath),
    ("SunXmlWriter", F::SunXmlWriter),
    ("SunXmlWriterGlobal", F::SunXmlWriterGlobal),
    ("SunXmlWriterTemplate", F::SunXmlWriterTemplate),
    ("TagImageFileFormat", F::TagImageFileFormat),
    ("TapeArchive", F::TapeArchive),
    ("Tasty", F::Tasty),
    ("ThirdGenerationPartnershipProject", F::ThirdGenerationPartnershipProject),
    ("ThirdGenerationPartnershipProject2", F::ThirdGenerationPartnershipProject2),
    ("ThreeDimensionalManufacturingFormat", F::ThreeDimensionalManufacturingFormat),
    ("ThreeDimensionalStudio", F::ThreeDimensionalStudio),
    ("ThreeDimensionalStudioMax", F::ThreeDimensionalStudioMax),
    ("TiledMapXml", F::TiledMapXml),
    ("TiledTilesetXml", F::TiledTilesetXml),
    ("TimedTextMarkupLanguage", F::TimedTextMarkupLanguage),
    ("ToolCommandLanguageScript", F::ToolCommandLanguageScript),
    ("TrainingCenterXml", F::TrainingCenterXml),
    ("Truetype", F::Truetype),
    ("TruetypeCollection", F::TruetypeCollection),
    ("UltimateSoundtrackerModule", F::UltimateSoundtrackerModule),
    ("UniformOfficeFormatPresentation", F::UniformOfficeFormatPresentation),
    ("UniformOfficeFormatSpreadsheet", F::UniformOfficeFormatSpreadsheet),
    ("UniformOfficeFormatText", F::UniformOfficeFormatText),
    ("Universal3d", F::Universal3d),
    ("UniversalSceneDescriptionAscii", F::UniversalSceneDescriptionAscii),
    ("UniversalSceneDescriptionBinary", F::UniversalSceneDescriptionBinary),
    ("UniversalSceneDescriptionZip", F::UniversalSceneDescriptionZip),
    ("UniversalSubtitleFormat", F::UniversalSubtitleFormat),
    ("UnixArchiver", F::UnixArchiver),
    ("UnixCompress", F::UnixCompress),
    ("Vcalendar", F::Vcalendar),
    ("Vcard", F::Vcard),
    ("VirtualMachineDisk", F::VirtualMachineDisk),
    ("VirtualRealityModelingLanguage", F::VirtualRealityModelingLanguage),
    ("VirtualboxVirtualDiskImage", F::VirtualboxVirtualDiskImage),
    ("WaveformAudio", F::WaveformAudio),
    ("Wavpack", F::Wavpack),
    ("WebApplicationArchive", F::WebApplicationArchive),
    ("WebOpenFontFormat", F::WebOpenFontFormat),
    ("WebOpenFontFormat2", F::WebOpenFontFormat2),
    ("WebVideoTextTracks", F::WebVideoTextTracks),
    ("WebassemblyBinary", F::WebassemblyBinary),
    ("WebassemblyText", F::WebassemblyText),
    ("Webm", F::Webm),
    ("Webp", F::Webp),
    ("WindowsAnimatedCursor", F::WindowsAnimatedCursor),
    ("WindowsAppBundle", F::WindowsAppBundle),
    ("WindowsAppPackage", F::WindowsAppPackage),
    ("WindowsBitmap", F::WindowsBitmap),
    ("WindowsCursor", F::WindowsCursor),
    ("WindowsIcon", F::WindowsIcon),
    ("WindowsImagingFormat", F::WindowsImagingFormat),
    ("WindowsMediaAudio", F::WindowsMediaAudio),
    ("WindowsMediaPlaylist", F::WindowsMediaPlaylist),
    ("WindowsMediaVideo", F::WindowsMediaVideo),
    ("WindowsMetafile", F::WindowsMetafile),
    ("WindowsRecordedTvShow", F::WindowsRecordedTvShow),
    ("WindowsShortcut", F::WindowsShortcut),
    ("WordperfectDocument", F::WordperfectDocument),
    ("WordperfectGraphics", F::WordperfectGraphics),
    ("WordperfectMacro", F::WordperfectMacro),
    ("WordperfectPresentations", F::WordperfectPresentations),
    ("XPixmap", F::XPixmap),
    ("Xap", F::Xap),
    ("Xbox360Executable", F::Xbox360Executable),
    ("XboxExecutable", F::XboxExecutable),
    ("XmlLocalizationInterchangeFileFormat", F::XmlLocalizationInterchangeFileFormat),
    ("XmlShareablePlaylistFormat", F::XmlShareablePlaylistFormat),
    ("Xpinstall", F::Xpinstall),
    ("Xz", F::Xz),
    ("Zip", F::Zip),
    ("Zoo", F::Zoo),
    ("Zpaq", F::Zpaq),
    ("Zstandard", F::Zstandard),
];
