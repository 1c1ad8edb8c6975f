"""Stand-in for the part of the Rubin Science Pipelines metadetect uses.

Pixel containers, boxes, footprints and configurations follow the documented
semantics; detection, deblending, centroiding and background estimation are
environment and scripted through ``ngmix.env.HOOKS``."""
