"""The public naming conventions of Stable Diffusion checkpoints, written down independently of the tree under test.

Each function maps a key of the original (ldm / sgm) layout to (list of source keys, transform); transform is one of
"same", "cat" (concatenation of the sources), "T" (transpose), "conv" (trailing 1x1 dimensions are added).
"""
import re

RESNET = {"in_layers.0": "norm1", "in_layers.2": "conv1", "out_layers.0": "norm2", "out_layers.3": "conv2",
          "emb_layers.1": "time_emb_proj", "skip_connection": "conv_shortcut"}
TOP = {"time_embed.0": "time_embedding.linear_1", "time_embed.2": "time_embedding.linear_2",
       "label_emb.0.0": "add_embedding.linear_1", "label_emb.0.2": "add_embedding.linear_2",
       "input_blocks.0.0": "conv_in", "out.0": "conv_norm_out", "out.2": "conv_out"}


def resnet(rest):
    for a, b in RESNET.items():
        if rest.startswith(a + "."):
            return b + rest[len(a):]
    return None


def unet_to_diffusers(key):
    """key without "model.diffusion_model." """
    for a, b in TOP.items():
        if re.fullmatch(re.escape(a) + r"\.(weight|bias)", key):
            return b + key[len(a):]
    m = re.fullmatch(r"(input_blocks|output_blocks)\.(\d+)\.(\d+)\.(.+)", key)
    if m:
        side, n, slot, rest = m[1], int(m[2]), int(m[3]), m[4]
        if side == "input_blocks":
            block, pos = divmod(n - 1, 3)
            if rest.startswith("op."):
                return f"down_blocks.{block}.downsamplers.0.conv.{rest[3:]}" if (pos, slot) == (2, 0) else None
            block_name = f"down_blocks.{block}"
        else:
            block, pos = divmod(n, 3)
            if rest.startswith("conv."):
                return f"up_blocks.{block}.upsamplers.0.{rest}" if pos == 2 and slot > 0 else None
            block_name = f"up_blocks.{block}"
        if slot == 0:
            rest = resnet(rest)
            return rest and f"{block_name}.resnets.{pos}.{rest}"
        return f"{block_name}.attentions.{pos}.{rest}"
    m = re.fullmatch(r"middle_block\.(\d)\.(.+)", key)
    if m:
        if m[1] == "1":
            return f"mid_block.attentions.0.{m[2]}"
        rest = resnet(m[2])
        return rest and f"mid_block.resnets.{int(m[1]) // 2}.{rest}"
    return None


def vae_to_diffusers(key):
    """key without "first_stage_model."; returns (key, transform)"""
    if re.fullmatch(r"(quant_conv|post_quant_conv|(encoder|decoder)\.conv_(in|out))\.(weight|bias)", key):
        return key, "same"
    m = re.fullmatch(r"(encoder|decoder)\.norm_out\.(weight|bias)", key)
    if m:
        return f"{m[1]}.conv_norm_out.{m[2]}", "same"
    m = re.fullmatch(r"(encoder|decoder)\.mid\.block_(\d)\.(.+)", key)
    if m:
        return f"{m[1]}.mid_block.resnets.{int(m[2]) - 1}.{m[3]}", "same"
    m = re.fullmatch(r"(encoder|decoder)\.mid\.attn_1\.(\w+)\.(weight|bias)", key)
    if m:
        name = {"norm": "group_norm", "q": "to_q", "k": "to_k", "v": "to_v", "proj_out": "to_out.0"}[m[2]]
        return f"{m[1]}.mid_block.attentions.0.{name}.{m[3]}", "conv" if m[2] != "norm" and m[3] == "weight" else "same"
    m = re.fullmatch(r"(encoder|decoder)\.(down|up)\.(\d)\.(.+)", key)
    if m:
        i = int(m[3])
        block = f"down_blocks.{i}" if m[2] == "down" else f"up_blocks.{3 - i}"
        rest = m[4]
        s = re.fullmatch(r"(down|up)sample\.conv\.(weight|bias)", rest)
        if s:
            return f"{m[1]}.{block}.{s[1]}samplers.0.conv.{s[2]}", "same"
        s = re.fullmatch(r"block\.(\d)\.(.+)", rest)
        if s:
            return f"{m[1]}.{block}.resnets.{s[1]}.{s[2].replace('nin_shortcut', 'conv_shortcut')}", "same"
    return None


def openclip_to_hf(key):
    """key without "conditioner.embedders.1.model."; returns (keys, transform)"""
    if key == "text_projection":
        return ["text_projection.weight"], "T"
    if key == "positional_embedding":
        return ["text_model.embeddings.position_embedding.weight"], "same"
    if key == "token_embedding.weight":
        return ["text_model.embeddings.token_embedding.weight"], "same"
    m = re.fullmatch(r"ln_final\.(weight|bias)", key)
    if m:
        return [f"text_model.final_layer_norm.{m[1]}"], "same"
    m = re.fullmatch(r"transformer\.resblocks\.(\d+)\.(.+)", key)
    if m:
        layer = f"text_model.encoder.layers.{m[1]}"
        s = re.fullmatch(r"attn\.in_proj_(weight|bias)", m[2])
        if s:
            return [f"{layer}.self_attn.{x}_proj.{s[1]}" for x in "qkv"], "cat"
        s = re.fullmatch(r"attn\.out_proj\.(weight|bias)", m[2])
        if s:
            return [f"{layer}.self_attn.out_proj.{s[1]}"], "same"
        s = re.fullmatch(r"ln_([12])\.(weight|bias)", m[2])
        if s:
            return [f"{layer}.layer_norm{s[1]}.{s[2]}"], "same"
        s = re.fullmatch(r"mlp\.(c_fc|c_proj)\.(weight|bias)", m[2])
        if s:
            return [f"{layer}.mlp.{'fc1' if s[1] == 'c_fc' else 'fc2'}.{s[2]}"], "same"
    return None


UNET, VAE = "model.diffusion_model.", "first_stage_model."


def sdxl_diffusers(key):
    res = unet_to_diffusers(key[len(UNET):]) if key.startswith(UNET) else None
    return res and ([res], "same")


def sd1_kohya(key):
    if key.startswith(UNET):
        res = unet_to_diffusers(key[len(UNET):])
        return res and ([f"unet.{res}"], "same")
    if key.startswith(VAE):
        res = vae_to_diffusers(key[len(VAE):])
        return res and ([f"vae.{res[0]}"], res[1])
    if key.startswith("cond_stage_model.transformer."):
        return [f"te.{key[len('cond_stage_model.transformer.'):]}"], "same"
    return None


def sdxl_kohya(key):
    if key.startswith(UNET):
        return [f"unet.{key[len(UNET):]}"], "same"
    if key.startswith(VAE):
        return [key], "same"
    if key.startswith("conditioner.embedders.0.transformer."):
        return [f"te1.{key[len('conditioner.embedders.0.transformer.'):]}"], "same"
    if key.startswith("conditioner.embedders.1.model."):
        res = openclip_to_hf(key[len("conditioner.embedders.1.model."):])
        return res and ([f"te2.{k}" for k in res[0]], res[1])
    return None


def blocks(n_blocks, key, has_vae):
    if key.startswith(UNET):
        rest = key[len(UNET):]
        if rest.startswith(("time_embed.", "label_emb.")):
            return "BASE"
        m = re.match(r"(input|output)_blocks\.(\d+)\.", rest)
        if m:
            return f"{'IN' if m[1] == 'input' else 'OUT'}{int(m[2]):02}"
        return "M00" if rest.startswith("middle_block.") else f"OUT{n_blocks - 1:02}"
    return "VAE" if has_vae and key.startswith(VAE) else "BASE"


CONVERSIONS = {  # (source, target): key of the target -> (source keys, transform) or None
    ("sdxl-diffusers_unet_only", "sdxl-sgm"): sdxl_diffusers,
    ("sd1-kohya", "sd1-ldm"): sd1_kohya,
    ("sdxl-kohya", "sdxl-sgm"): sdxl_kohya,
    ("flux-flux", "flux-flux_diffuser_only"): lambda key: ([UNET + key], "same"),
    ("flux-flux_diffuser_only", "flux-flux"): lambda key: ([key[len(UNET):]], "same") if key.startswith(UNET) else None,
    ("sdxl-supermerger_blocks", "sdxl-sgm"): lambda key: ([blocks(9, key, True)], "same"),
    ("sd1-supermerger_blocks", "sd1-ldm"): lambda key: ([blocks(12, key, False)], "same"),
}
