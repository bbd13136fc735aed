/* the field values of a parsed audio scene, in grammar order */
static void m24(long v) { V((v >> 16) & 0xff); V(v & 0xffff); }

static void desc(ia_description_data *d, int w) {
  int b, l, k;
  V(d->num_descr_blks);
  for (b = 0; b < d->num_descr_blks; b++) {
    M(d->grp_id[b], w); V(d->num_descr_languages[b]);
    for (l = 0; l < d->num_descr_languages[b]; l++) {
      m24(d->descr_language[b][l]); V(d->descr_data_length[b][l]);
      for (k = 0; k < d->descr_data_length[b][l]; k++) M(d->descr_data[b][l][k], 8);
    }
  }
}
static void scene(ia_mae_audio_scene_info *a) {
  int i, k, j, t; int np, ng;
  V(a->main_stream_flag);
  if (!a->main_stream_flag) { V(a->mae_id_offset); V(a->mae_id_max_avail); return; }
  V(a->asi_id_present); if (a->asi_id_present) V(a->asi_id);
  V(ng = a->num_groups);
  for (i = 0; i < ng; i++) {
    ia_mae_group_def *g = &a->group_definition[i];
    V(g->group_id); V(g->allow_on_off); V(g->default_on_off); V(g->allow_pos_interact);
    if (g->allow_pos_interact) { V(g->min_az_offset); V(g->max_az_offset); V(g->min_el_offset); V(g->max_el_offset); V(g->min_dist_factor); V(g->max_dist_factor); }
    V(g->allow_gain_interact);
    if (g->allow_gain_interact) { V(g->min_gain); V(g->max_gain); }
    V(g->group_num_members); V(g->has_conjunct_members);
    if (g->has_conjunct_members) V(g->start_id); else for (k = 0; k < g->group_num_members; k++) V(g->metadata_ele_id[k]);
  }
  V(a->num_switch_groups);
  for (i = 0; i < a->num_switch_groups; i++) {
    ia_mae_switch_group_def *g = &a->switch_group_definition[i];
    V(g->group_id); V(g->allow_on_off); if (g->allow_on_off) V(g->default_on_off);
    V(g->group_num_members); for (k = 0; k < g->group_num_members; k++) V(g->member_id[k]);
    V(g->default_group_id);
  }
  V(np = a->num_group_presets);
  for (i = 0; i < np; i++) {
    ia_mae_group_presets_def *p = &a->group_presets_definition[i];
    V(p->group_id); V(p->preset_kind); V(p->num_conditions);
    for (k = 0; k < p->num_conditions; k++) {
      V(p->reference_id[k]); V(p->cond_on_off[k]);
      if (p->cond_on_off[k]) {
        V(p->disable_gain_interact[k]); V(p->gain_flag[k]); if (p->gain_flag[k]) M(p->gain[k], 8);
        V(p->disable_pos_interact[k]); V(p->position_interact[k]);
        if (p->position_interact[k]) { M(p->azimuth_offset[k], 8); M(p->elevation_offset[k], 6); M(p->dist_factor[k], 4); }
      }
    }
  }
  V(a->mae_data.num_data_sets);
  for (i = 0; i < a->mae_data.num_data_sets; i++) {
    t = a->mae_data.data_type[i]; V(t); M(a->mae_data.data_length[i], 16);
    switch (t) {
    case 0: desc(&a->group_desc_data, 7); break;
    case 1: desc(&a->switch_group_desc_data, 5); break;
    case 5: desc(&a->preset_desc_data, 5); break;
    case 2: { ia_content_data *c = &a->content_data; V(c->num_data_blks);
      for (k = 0; k < c->num_data_blks + 1; k++) { V(c->data_grp_id[k]); V(c->content_kind[k]); V(c->has_content_language[k]);
        if (c->has_content_language[k]) m24(c->content_language[k]); } } break;
    case 3: { ia_composite_pair_data *c = &a->composite_pair_data; V(c->num_pairs);
      for (k = 0; k < c->num_pairs; k++) { V(c->ele_id[k][0]); V(c->ele_id[k][1]); } } break;
    case 4: { ia_production_screen_size_data *c = &a->screen_size_data; V(c->has_non_std_screen_size);
      if (c->has_non_std_screen_size) { V(c->screen_size_az); V(c->screen_size_el); V(c->screen_size_bot_el); } } break;
    case 6: { ia_drc_user_interface_info *c = &a->drc_interface_info; V(c->version);
      if (!c->version) { V(c->num_tgt_loudness_cnd);
        for (k = 0; k < c->num_tgt_loudness_cnd; k++) { M(c->tgt_loudness_value[k + 1], 6); M(c->set_effect_available[k], 8); } } } break;
    case 7: { ia_production_screen_size_ext_data *c = &a->screen_size_ext_data; V(c->overwrite_prod_screen_size_data);
      if (c->overwrite_prod_screen_size_data) { V(c->default_screen_sz_left_az); V(c->default_screen_sz_right_az); }
      V(c->num_preset_prod_screens);
      for (k = 0; k < c->num_preset_prod_screens; k++) { V(c->screen_grp_preset_id[k]); V(c->has_non_std_screen_sz[k]);
        if (c->has_non_std_screen_sz[k]) { V(c->centered_in_az[k]); V(c->screen_sz_left_az[k]);
          if (!c->centered_in_az[k]) V(c->screen_sz_right_az[k]); V(c->screen_sz_top_el[k]); V(c->screen_sz_bot_el[k]); } } } break;
    case 8: { ia_mae_group_presets_ext_def *c = &a->group_presets_ext_definition; int p;
      for (p = 0; p < np; p++) {
        V(c->has_switch_group_conditions[p]);
        if (c->has_switch_group_conditions[p]) for (k = 0; k < a->group_presets_definition[p].num_conditions; k++) V(c->is_switch_group_condition[p][k]);
        V(c->has_downmix_id_group_preset_extensions[p]);
        if (c->has_downmix_id_group_preset_extensions[p]) { V(c->num_downmix_id_group_preset_extensions[p]);
          for (k = 0; k < c->num_downmix_id_group_preset_extensions[p]; k++) { V(c->group_preset_downmix_id[p][k]); V(c->group_preset_num_conditions[p][k]);
            for (j = 0; j < c->group_preset_num_conditions[p][k]; j++) {
              V(c->downmix_id_is_switch_group_condition[p][k][j]);
              if (c->downmix_id_is_switch_group_condition[p][k][j]) V(c->group_preset_switch_group_id[p][k][j]); else V(c->group_preset_group_id[p][k][j]);
              V(c->group_preset_condition_on_off[p][k][j]);
              if (c->group_preset_condition_on_off[p][k][j]) {
                V(c->group_preset_disable_gain_interactivity[p][k][j]); V(c->group_preset_gain_flag[p][k][j]); if (c->group_preset_gain_flag[p][k][j]) M(c->group_preset_gain[p][k][j], 8);
                V(c->group_preset_disable_pos_interactiviy[p][k][j]); V(c->group_preset_position_flag[p][k][j]);
                if (c->group_preset_position_flag[p][k][j]) { M(c->group_preset_az_offset[p][k][j], 8); M(c->group_preset_el_offset[p][k][j], 6); M(c->group_preset_dist_fac[p][k][j], 4); }
              } } } } } } break;
    case 9: { ia_loudness_compensation_data *c = &a->loud_comp_data; int p;
      V(c->group_loudness_present); if (c->group_loudness_present) for (k = 0; k < ng; k++) M(c->group_loudness[k], 8);
      V(c->default_params_present);
      if (c->default_params_present) { for (k = 0; k < ng; k++) V(c->default_include_group[k]); V(c->default_min_max_gain_present);
        if (c->default_min_max_gain_present) { V(c->default_min_gain); V(c->default_max_gain); } }
      for (p = 0; p < np; p++) { V(c->preset_params_present[p]);
        if (c->preset_params_present[p]) { for (k = 0; k < ng; k++) V(c->preset_include_group[p][k]); V(c->preset_min_max_gain_present[p]);
          if (c->preset_min_max_gain_present[p]) { V(c->preset_min_gain[p]); V(c->preset_max_gain[p]); } } } } break;
    }
  }
  V(a->mae_id_max_avail);
}
